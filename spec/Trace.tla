-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks traces recorded from the real code against Contract.  The file   *)
(* named by the environment variable TRACE holds one trace per line (a     *)
(* JSON array of events, the header first).  Every trace is one behaviour: *)
(* the initial states choose the trace, each step consumes one event.      *)
(***************************************************************************)
EXTENDS Contract, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
PROP == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE "none"

VARIABLES i, j, m
vars == <<i, j, m>>

Init == /\ i \in 1..Len(Traces)
        /\ j = 1
        /\ m = Init0(Traces[i][1])

Next == /\ j < Len(Traces[i])
        /\ j' = j + 1
        /\ i' = i
        /\ m' = Step(m, Traces[i][j + 1], j + 1)

Spec == Init /\ [][Next]_vars
View == <<i, j>>

\* Every trace must be consumed to its end: one distinct state for each event.
RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE Len(Traces[n]) + Total(n - 1)

Report == j = Len(Traces[i]) /\ m.bad # {} =>
            \A v \in m.bad : PrintT(<<"BAD", i, v[1], v[2], v[3]>>)

\* The invariant of one property, for replaying a recorded violation.
PropertyHolds == Holds(m, PROP)
=============================================================================
