------------------------------ MODULE TimerScript ------------------------------
(***************************************************************************)
(* Histories of timers for replay in the real code (compare IoScript).     *)
(*                                                                         *)
(* One call of the library, one unit of time, or one half of a round of    *)
(* the reactor is one step.  The data are those of the code: the timer     *)
(* with its remembered registration, the queue of operations, the map of   *)
(* registrations, and what the reactor has taken out of it but not woken.  *)
(* Times are relative to now, so that the state space is finite.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt

CONSTANTS NT,       \* timers
          AFTER,    \* durations for one-shot timers
          PER,      \* periods for interval timers
          OVER,     \* durations that overflow are used, too
          TWO,      \* timers are polled with two different wakers
          MAXQ      \* operations in the queue

T == 1..NT
NONE == -9
LOW == -2           \* how far an interval timer may fall behind

VARIABLES tm, q, map, r, note, act
vars == <<tm, q, map, r, note, act>>
View == <<tm, q, map, r, note>>

No == [st |-> "none", when |-> NONE, per |-> NONE, reg |-> FALSE, id |-> 0, wk |-> 0]
Init == /\ tm = [t \in T |-> No]
        /\ q = <<>> /\ map = {}         \* map: {<<when, id, waker>>}
        /\ r = [at |-> 1, pend |-> <<>>, tmo |-> NONE, zero |-> FALSE]
        /\ note = FALSE /\ act = ""

Wk(t, v) == 2 * t - (IF v = "a" THEN 1 ELSE 0)
RECURSIVE Str(_)
Str(s) == IF s = <<>> THEN "" ELSE ToString(s[1]) \o (IF Len(s) > 1 THEN "," ELSE "") \o Str(Tail(s))
Say(op, res, wk) == act' = op \o ">" \o res \o ":" \o Str(wk)

\* identities up to order
Ids(tt, qq, mm) == {tt[t].id : t \in T} \cup {qq[i].id : i \in DOMAIN qq} \cup {e[2] : e \in mm} \cup {0}
NewId(tt, qq, mm) == 1 + CHOOSE x \in Ids(tt, qq, mm) : \A y \in Ids(tt, qq, mm) : y <= x
Becomes(tt, qq, mm) ==
  LET used == {qq[i].id : i \in DOMAIN qq} \cup {e[2] : e \in mm}
      \* an identity that is registered nowhere does not matter
      t1 == [t \in T |-> IF tt[t].id \in used THEN tt[t] ELSE [tt[t] EXCEPT !.id = 0]]
      V == used \cup {0}
      K == [x \in V |-> Cardinality({y \in V : y < x})]
  IN /\ tm' = [t \in T |-> [t1[t] EXCEPT !.id = K[@]]]
     /\ q' = [i \in DOMAIN qq |-> [qq[i] EXCEPT !.id = K[@]]]
     /\ map' = {<<e[1], K[e[2]], e[3]>> : e \in mm}

Ins(when, id, wk) == [op |-> "i", when |-> IF when < 0 THEN 0 ELSE when, id |-> id, wk |-> wk]
Rem(id) == [op |-> "r", when |-> 0, id |-> id, wk |-> 0]

Roomy == Len(q) + 2 <= MAXQ

\* the new state of timer t and the operations it queues
Acts(t, x, ops) ==
  /\ Becomes([tm EXCEPT ![t] = x], q \o ops, map)
  /\ note' = (note \/ \E i \in DOMAIN ops : ops[i].op = "i")
  /\ UNCHANGED r

Kinds == {<<"A", k, NONE>> : k \in AFTER} \cup {<<"I", p, p>> : p \in PER} \cup (IF OVER THEN {<<"O", NONE, NONE>>} ELSE {})
Kind(k) == k[1] \o (IF k[2] = NONE THEN "" ELSE ToString(k[2]))

New(t) ==
  /\ tm[t].st = "none"
  /\ \E k \in Kinds :
       /\ Acts(t, [No EXCEPT !.st = "live", !.when = k[2], !.per = k[3]], <<>>)
       /\ Say("N" \o ToString(t) \o Kind(k), "", <<>>)

Poll(t) ==
  LET x == tm[t] IN
  /\ x.st = "live" /\ Roomy
  /\ \E v \in (IF TWO THEN {"a", "b"} ELSE {"a"}) :
     LET w == Wk(t, v)
         op == "P" \o ToString(t) \o v
         id == NewId(tm, q, map)
     IN
     IF x.when = NONE
     THEN Acts(t, [x EXCEPT !.reg = TRUE, !.wk = w, !.id = 0], <<>>) /\ Say(op, "p", <<>>)
     ELSE IF x.when <= 0
     THEN /\ Say(op, "r", <<>>)
          /\ LET rem == IF x.reg THEN <<Rem(x.id)>> ELSE <<>> IN
             IF x.per = NONE THEN Acts(t, [x EXCEPT !.when = NONE, !.reg = FALSE, !.id = 0, !.wk = 0], rem)
             ELSE LET nx == x.when + x.per IN
                  Acts(t, [x EXCEPT !.when = nx, !.reg = TRUE, !.id = id, !.wk = w], rem \o <<Ins(nx, id, w)>>)
     ELSE /\ Say(op, "p", <<>>)
          /\ IF ~x.reg THEN Acts(t, [x EXCEPT !.reg = TRUE, !.id = id, !.wk = w], <<Ins(x.when, id, w)>>)
             ELSE IF x.wk # w THEN Acts(t, [x EXCEPT !.id = id, !.wk = w], <<Rem(x.id), Ins(x.when, id, w)>>)
             ELSE Acts(t, x, <<>>)

Set(t) ==
  LET x == tm[t] IN
  /\ x.st = "live" /\ Roomy
  /\ \E k \in Kinds :
     LET id == NewId(tm, q, map)
         rem == IF x.when # NONE /\ x.reg THEN <<Rem(x.id)>> ELSE <<>>
     IN /\ Say("S" \o ToString(t) \o Kind(k), "", <<>>)
        /\ IF k[1] = "O" THEN Acts(t, [x EXCEPT !.when = NONE], rem)
           ELSE LET y == [x EXCEPT !.when = k[2], !.per = k[3]]
                IN IF x.reg THEN Acts(t, [y EXCEPT !.id = id], rem \o <<Ins(k[2], id, x.wk)>>) ELSE Acts(t, y, rem)

Drop(t) ==
  LET x == tm[t] IN
  /\ x.st = "live" /\ Roomy
  /\ Acts(t, No, IF x.when # NONE /\ x.reg THEN <<Rem(x.id)>> ELSE <<>>)
  /\ Say("D" \o ToString(t), "", <<>>)

Less(n) == IF n = NONE THEN NONE ELSE n - 1
Floor(n) == IF n = NONE THEN NONE ELSE IF n < 0 THEN 0 ELSE n
Advance ==
  /\ \A t \in T : tm[t].st = "live" /\ tm[t].when # NONE /\ tm[t].per # NONE => tm[t].when > LOW
  /\ \/ \E t \in T : tm[t].when > 0
     \/ \E t \in T : tm[t].when # NONE /\ tm[t].per # NONE /\ tm[t].when > LOW
     \/ \E e \in map : e[1] > 0
     \/ r.tmo > 0
  /\ tm' = [t \in T |-> [tm[t] EXCEPT !.when = IF tm[t].per = NONE THEN Floor(Less(@)) ELSE Less(@)]]
  /\ q' = [i \in DOMAIN q |-> [q[i] EXCEPT !.when = Floor(Less(@))]]
  /\ map' = {<<Floor(Less(e[1])), e[2], e[3]>> : e \in map}
  /\ r' = [r EXCEPT !.tmo = Floor(Less(@))]
  /\ UNCHANGED note /\ Say("A", "", <<>>)

\* ---------------------------------------------------------------- the reactor
RECURSIVE Apply(_, _)
Apply(mm, ops) ==
  IF ops = <<>> THEN mm
  ELSE LET o == ops[1] IN
       Apply(IF o.op = "i" THEN mm \cup {<<o.when, o.id, o.wk>>} ELSE {e \in mm : e[2] # o.id}, Tail(ops))
RECURSIVE WksOf(_)
WksOf(E) == IF E = {} THEN <<>>
            ELSE LET e == CHOOSE e \in E : \A f \in E : e[2] <= f[2] IN <<e[3]>> \o WksOf(E \ {e})
\* process_timers: <<map, wakers, timeout>>
Process(mm, qq) ==
  LET m1 == Apply(mm, qq)
      due == {e \in m1 : e[1] <= 0}
      rest == m1 \ due
      tmo == IF due # {} THEN 0 ELSE IF rest = {} THEN NONE
             ELSE CHOOSE n \in {e[1] : e \in rest} : \A e \in rest : n <= e[1]
  IN <<rest, WksOf(due), tmo, due # {}>>

Collect ==
  /\ r.at = 1 /\ (note \/ r.zero \/ r.tmo = 0)
  /\ r' = [r EXCEPT !.at = 3, !.tmo = NONE]
  /\ UNCHANGED <<tm, q, map, note>> /\ Say("C", "", <<>>)

Deliver ==
  /\ r.at = 3
  /\ LET a == IF r.zero THEN <<map, <<>>, 0, FALSE>> ELSE Process(map, q)
         b == Process(a[1], IF r.zero THEN q ELSE <<>>)
     IN /\ Becomes(tm, <<>>, b[1])
        /\ r' = [at |-> 1, pend |-> b[2], tmo |-> b[3], zero |-> b[4]]
        /\ Say("V", "", r.pend \o a[2])
  /\ note' = FALSE

Next == (\E t \in T : New(t) \/ Poll(t) \/ Set(t) \/ Drop(t)) \/ Advance \/ Collect \/ Deliver
Spec == Init /\ [][Next]_vars

Id(v) == ToString(TLCFP(<<1, v>>)) \o "." \o ToString(TLCFP(<<v, 2>>))
Emit == PrintT("E " \o Id(View) \o " " \o Id(View') \o " " \o act')
\* A timer that is waiting is registered, or about to be.
Sane == \A t \in T : tm[t].st = "live" /\ tm[t].when > 0 /\ tm[t].reg =>
          \/ \E e \in map : e[2] = tm[t].id /\ e[3] = tm[t].wk
          \/ \E i \in DOMAIN q : q[i].op = "i" /\ q[i].id = tm[t].id /\ q[i].wk = tm[t].wk
================================================================================
