------------------------------- MODULE IoScript -------------------------------
(***************************************************************************)
(* Histories of the readiness machinery for replay in the real code.       *)
(*                                                                         *)
(* The design of IoDesign once more, with one call of the library (or one  *)
(* half of a round of the reactor: collecting the events, delivering them) *)
(* as one step, and with the data structures in full detail (slab indices  *)
(* and their free lists, keys of sources, ticks up to order).  Every       *)
(* transition of the reachable state graph is printed with its label: the  *)
(* step, and what the design predicts of it.  tools/replay.py covers the   *)
(* graph with histories and runs them in the real code.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt

CONSTANTS SLOTS,      \* <<[h, d, f], ...>>: the waits (f = 1: futures, f = 0: poll functions)
          NH,         \* handles; with LATER the last one does not exist at first
          LATER, DROPH, HUP, FLT, TWO,
          DIRS        \* directions in which readiness changes

S == 1..Len(SLOTS)
H == 1..NH
D == 1..2
RD == 1  WR == 2

VARIABLES src, fut, ep, rdy, ticker, r, tab, free, flt, act
vars == <<src, fut, ep, rdy, ticker, r, tab, free, flt, act>>
View == <<src, fut, ep, rdy, ticker, r, tab, free, flt>>

NoTicks == <<-1, -1>>
NoSrc == [st |-> "none", key |-> 0, tick |-> <<0, 0>>, ticks |-> <<NoTicks, NoTicks>>, waker |-> <<0, 0>>,
          wks |-> << <<>>, <<>> >>, fr |-> << <<>>, <<>> >>]
NoFut == [st |-> "new", idx |-> 0, ticks |-> NoTicks]
Off == [on |-> FALSE, r |-> FALSE, w |-> FALSE, live |-> FALSE]
First == IF LATER THEN NH - 1 ELSE NH

Init ==
  /\ src = [h \in H |-> IF h <= First THEN [NoSrc EXCEPT !.st = "live", !.key = h] ELSE NoSrc]
  /\ tab = [k \in 1..First |-> k] /\ free = <<>>
  /\ fut = [s \in S |-> NoFut]
  /\ ep = [h \in H |-> IF h <= First THEN [Off EXCEPT !.on = TRUE] ELSE Off]
  /\ rdy = [h \in H |-> <<FALSE, FALSE, FALSE>>]
  /\ ticker = 1
  /\ r = [at |-> 1, tick |-> 1, evs |-> {}]
  /\ flt = 0
  /\ act = ""

Range(q) == {q[i] : i \in DOMAIN q}
EmptyDir(x, d) == x.waker[d] = 0 /\ \A i \in DOMAIN x.wks[d] : x.wks[d][i] <= 0
Wakers(x, d) == {w \in {x.waker[d]} \cup Range(x.wks[d]) : w > 0}
Interest(x) == [on |-> TRUE, live |-> TRUE, r |-> ~EmptyDir(x, RD), w |-> ~EmptyDir(x, WR)]

Str(T) == LET RECURSIVE G(_)
              G(U) == IF U = {} THEN "" ELSE LET a == CHOOSE a \in U : \A b \in U : a <= b
                                            IN (IF U # T THEN "," ELSE "") \o ToString(a) \o G(U \ {a})
          IN G(T)
\* step, prediction: result and wakers called
Say(op, res, wk) == act' = op \o ">" \o res \o ":" \o Str(wk)

\* a slot of the slab: the one freed last, or a new one
Insert(x, d, w) ==
  IF x.fr[d] # <<>>
  THEN LET i == x.fr[d][1] IN <<i, [x EXCEPT !.wks[d][i] = w, !.fr[d] = Tail(@)]>>
  ELSE <<Len(x.wks[d]) + 1, [x EXCEPT !.wks[d] = Append(@, w)]>>

Wk(s, v) == 2 * s - (IF v = "a" THEN 1 ELSE 0)

Poll(s) ==
  LET h == SLOTS[s].h  d == SLOTS[s].d  x == src[h] IN
  /\ x.st = "live" /\ fut[s].st \in {"new", "reg"}
  /\ \E v \in (IF TWO THEN {"a", "b"} ELSE {"a"}) :
     LET w == Wk(s, v)
         op == "P" \o ToString(s) \o v
         was == EmptyDir(x, d)
     IN
     IF SLOTS[s].f = 1
     THEN LET t == fut[s].ticks IN
          IF t # NoTicks /\ x.tick[d] # t[1] /\ x.tick[d] # t[2]
          THEN /\ fut' = [fut EXCEPT ![s].st = "done", ![s].ticks = NoTicks]
               /\ Say(op, "ready", {}) /\ UNCHANGED <<src, ep, flt>>
          ELSE LET p == IF fut[s].idx = 0 THEN Insert(x, d, w) ELSE <<fut[s].idx, [x EXCEPT !.wks[d][fut[s].idx] = w]>>
                   tk == IF fut[s].idx = 0 THEN <<ticker, x.tick[d]>> ELSE t
               IN /\ fut' = [fut EXCEPT ![s] = [st |-> "reg", idx |-> p[1], ticks |-> tk]]
                  /\ IF was /\ flt = h
                     THEN /\ src' = [src EXCEPT ![h] = [p[2] EXCEPT !.wks[d][p[1]] = 0]]
                          /\ flt' = -1 /\ Say(op, "err", {}) /\ UNCHANGED ep
                     ELSE /\ src' = [src EXCEPT ![h] = p[2]]
                          /\ ep' = IF was THEN [ep EXCEPT ![h] = Interest(p[2])] ELSE ep
                          /\ Say(op, "pending", {}) /\ UNCHANGED flt
     ELSE LET t == x.ticks[d] IN
          /\ fut' = [fut EXCEPT ![s].st = "reg"]
          /\ IF t # NoTicks /\ x.tick[d] # t[1] /\ x.tick[d] # t[2]
             THEN /\ src' = [src EXCEPT ![h].ticks[d] = NoTicks] /\ Say(op, "ready", {}) /\ UNCHANGED <<ep, flt>>
             ELSE IF x.waker[d] = w THEN Say(op, "pending", {}) /\ UNCHANGED <<src, ep, flt>>
             ELSE LET x1 == [x EXCEPT !.waker[d] = w, !.ticks[d] = <<ticker, x.tick[d]>>]
                      old == IF x.waker[d] > 0 THEN {x.waker[d]} ELSE {}
                  IN IF was /\ flt = h
                     THEN /\ src' = [src EXCEPT ![h] = [x1 EXCEPT !.waker[d] = 0, !.ticks[d] = NoTicks]]
                          /\ flt' = -1 /\ Say(op, "err", old) /\ UNCHANGED ep
                     ELSE /\ src' = [src EXCEPT ![h] = x1]
                          /\ ep' = IF was THEN [ep EXCEPT ![h] = Interest(x1)] ELSE ep
                          /\ Say(op, "pending", old) /\ UNCHANGED flt
  /\ UNCHANGED <<rdy, ticker, r, tab, free>>

DropS(s) ==
  LET h == SLOTS[s].h  d == SLOTS[s].d  i == fut[s].idx IN
  /\ SLOTS[s].f = 1 /\ fut[s].st \in {"reg", "done"}
  /\ src' = IF i = 0 THEN src ELSE [src EXCEPT ![h].wks[d][i] = -1, ![h].fr[d] = <<i>> \o @]
  /\ fut' = [fut EXCEPT ![s] = NoFut]
  /\ Say("D" \o ToString(s), "", {})
  /\ UNCHANGED <<ep, rdy, ticker, r, tab, free, flt>>

New(h) ==
  /\ src[h].st = "none"
  /\ LET k == IF free # <<>> THEN free[1] ELSE Len(tab) + 1 IN
     /\ src' = [src EXCEPT ![h] = [NoSrc EXCEPT !.st = "live", !.key = k]]
     /\ tab' = [j \in 1..(IF free # <<>> THEN Len(tab) ELSE k) |-> IF j = k THEN h ELSE tab[j]]
     /\ free' = IF free # <<>> THEN Tail(free) ELSE free
  /\ ep' = [ep EXCEPT ![h] = [Off EXCEPT !.on = TRUE]]
  /\ Say("N" \o ToString(h), "", {})
  /\ UNCHANGED <<fut, rdy, ticker, r, flt>>

DropH(h) ==
  /\ DROPH /\ src[h].st = "live"
  /\ \A s \in S : SLOTS[s].h = h => fut[s].st \in (IF SLOTS[s].f = 1 THEN {"new"} ELSE {"new", "reg"})
  /\ src' = [src EXCEPT ![h] = NoSrc]
  /\ tab' = [tab EXCEPT ![src[h].key] = 0] /\ free' = <<src[h].key>> \o free
  /\ ep' = [ep EXCEPT ![h] = Off] /\ rdy' = [rdy EXCEPT ![h] = <<FALSE, FALSE, FALSE>>]
  /\ fut' = [s \in S |-> IF SLOTS[s].h = h THEN NoFut ELSE fut[s]]
  /\ flt' = IF flt = h THEN -1 ELSE flt
  /\ Say("H" \o ToString(h), "", {})
  /\ UNCHANGED <<ticker, r>>

B(x) == IF x THEN "1" ELSE "0"
SetRdy(h) ==
  /\ src[h].st = "live"
  /\ \E a, b, c \in BOOLEAN :
       /\ (a => RD \in DIRS) /\ (b => WR \in DIRS)
       /\ <<a, b, c>> # rdy[h] /\ (c => HUP /\ a /\ b) /\ (rdy[h][3] => c)
       /\ rdy' = [rdy EXCEPT ![h] = <<a, b, c>>]
       /\ Say("R" \o ToString(h) \o B(a) \o B(b) \o B(c), "", {})
  /\ UNCHANGED <<src, fut, ep, ticker, r, tab, free, flt>>

\* the next change of interest in h fails (once)
Fault(h) ==
  /\ FLT /\ flt = 0 /\ src[h].st = "live"
  /\ flt' = h /\ Say("F" \o ToString(h), "", {})
  /\ UNCHANGED <<src, fut, ep, rdy, ticker, r, tab, free>>

RepR(h) == (ep[h].r /\ rdy[h][1]) \/ rdy[h][3]
RepW(h) == (ep[h].w /\ rdy[h][2]) \/ rdy[h][3]
Fires(h) == ep[h].on /\ ep[h].live /\ (RepR(h) \/ RepW(h))

Collect ==
  /\ r.at = 1 /\ \E h \in H : Fires(h)
  /\ LET F == {h \in H : Fires(h)} IN
     /\ r' = [r EXCEPT !.at = 3, !.evs = {<<src[h].key, RepR(h), RepW(h)>> : h \in F}]
     /\ ep' = [h \in H |-> IF h \in F THEN [ep[h] EXCEPT !.r = FALSE, !.w = FALSE, !.live = FALSE] ELSE ep[h]]
  /\ Say("C", "", {})
  /\ UNCHANGED <<src, fut, rdy, ticker, tab, free, flt>>

RECURSIVE Go(_)         \* <<events left, src, ep, flt, wakers>>
Go(q) ==
  IF q[1] = {} THEN q
  ELSE LET e == CHOOSE e \in q[1] : \A f \in q[1] : e[1] <= f[1]
           rest == q[1] \ {e}
           h == IF e[1] \in DOMAIN tab THEN tab[e[1]] ELSE 0
       IN IF h = 0 THEN Go(<<rest, q[2], q[3], q[4], q[5]>>)
          ELSE LET x == q[2][h]
                   fire(d) == (d = RD /\ e[2]) \/ (d = WR /\ e[3])
                   Clear(z, d) == [i \in DOMAIN z.wks[d] |-> IF z.wks[d][i] > 0 THEN 0 ELSE z.wks[d][i]]
                   x1 == [x EXCEPT !.tick = [d \in D |-> IF fire(d) THEN r.tick ELSE @[d]],
                                   !.waker = [d \in D |-> IF fire(d) THEN 0 ELSE @[d]],
                                   !.wks = [d \in D |-> IF fire(d) THEN Clear(x, d) ELSE @[d]]]
                   w1 == UNION {IF fire(d) THEN Wakers(x, d) ELSE {} : d \in D}
                   again == ~EmptyDir(x1, RD) \/ ~EmptyDir(x1, WR)
                   x2 == [x1 EXCEPT !.waker = <<0, 0>>, !.wks = [d \in D |-> Clear(x1, d)]]
               IN IF again /\ q[4] = h
                  THEN Go(<<rest, [q[2] EXCEPT ![h] = x2], q[3], -1, q[5] \cup w1 \cup Wakers(x1, RD) \cup Wakers(x1, WR)>>)
                  ELSE Go(<<rest, [q[2] EXCEPT ![h] = x1], IF again THEN [q[3] EXCEPT ![h] = Interest(x1)] ELSE q[3],
                            q[4], q[5] \cup w1>>)

TickVals(sr, fu, tk) ==
  UNION {{sr[h].tick[d] : d \in D} \cup {sr[h].ticks[d][1] : d \in D} \cup {sr[h].ticks[d][2] : d \in D} : h \in H}
  \cup UNION {{fu[i].ticks[1], fu[i].ticks[2]} : i \in S} \cup {tk, 0, -1}

Deliver ==
  /\ r.at = 3
  /\ LET q == Go(<<r.evs, src, ep, flt, {}>>)
         tk == ticker + 1
         V == TickVals(q[2], fut, tk)
         K == [x \in V |-> Cardinality({y \in V : y < x}) - 1]
     IN /\ src' = [h \in H |-> [q[2][h] EXCEPT !.tick = <<K[@[1]], K[@[2]]>>,
                     !.ticks = << <<K[@[1][1]], K[@[1][2]]>>, <<K[@[2][1]], K[@[2][2]]>> >>]]
        /\ fut' = [i \in S |-> [fut[i] EXCEPT !.ticks = <<K[@[1]], K[@[2]]>>]]
        /\ ticker' = K[tk] /\ r' = [at |-> 1, tick |-> K[tk], evs |-> {}]
        /\ ep' = q[3] /\ flt' = q[4]
        /\ Say("V", "", q[5])
  /\ UNCHANGED <<rdy, tab, free>>

Next == \/ \E s \in S : Poll(s) \/ DropS(s)
        \/ \E h \in H : New(h) \/ DropH(h) \/ SetRdy(h) \/ Fault(h)
        \/ Collect \/ Deliver
Spec == Init /\ [][Next]_vars

\* Every transition, those to known states included.
Id(v) == ToString(TLCFP(<<1, v>>)) \o "." \o ToString(TLCFP(<<v, 2>>))
Emit == PrintT("E " \o Id(View) \o " " \o Id(View') \o " " \o act')
Sane == \A h \in H : src[h].st = "live" => tab[src[h].key] = h
===============================================================================
