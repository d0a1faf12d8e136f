------------------------------ MODULE DriverDesign ------------------------------
(***************************************************************************)
(* src/driver.rs: block_on calls, their wakers, the hand-over of the       *)
(* reactor between the threads in block_on and the "async-io" thread.      *)
(*                                                                         *)
(* The world: CALLS block_on calls on some threads (one after the other or *)
(* nested), waker threads that wake them at any moment, and I/O items that *)
(* become ready at any moment; whoever polls the OS collects a ready item  *)
(* and calls its waker (a plain one, or that of a call).  A poll of a      *)
(* user's future takes any time - for ever, on the threads in BUSY.        *)
(*                                                                         *)
(* The safety rules of the contract are invariants; that due wake-ups are  *)
(* delivered is liveness, under fairness of each thread of the library.    *)
(***************************************************************************)
EXTENDS Contract, TLC

CONSTANTS NP,       \* threads that call block_on
          CALLS,    \* <<[th, outer], ...>>: call, its thread, the call whose poll makes it (0: top level)
          ITEMS,    \* <<b, ...>>: the call woken by the item (0: a plain waker)
          NE,       \* waker threads
          MAXW,     \* wakes of every call by waker threads
          NSL,      \* sleeps after which the "async-io" thread insists (10 in the code)
          BUSY,     \* threads whose polls may take for ever
          BUG

P == 1..NP
B == 1..Len(CALLS)
I == 1..Len(ITEMS)
L == NP + 1                    \* the "async-io" thread
E == (L + 1)..(L + NE)
X == 1..(L + NE)
\* parkers: one cached for each thread, a fresh one for a nested call
Nested(b) == CALLS[b].outer # 0
Pk(b) == IF Nested(b) /\ BUG # "shared-parker" THEN NP + b ELSE CALLS[b].th
K == 1..(NP + Len(CALLS))
LK == 0                        \* the parker of the "async-io" thread

VARIABLES m,
  t,        \* per thread in P: pc, call under way, tmo (react without waiting), wq (wakers to call)
  nx,       \* per call: none, on, over
  tok,      \* per parker: notified
  iob,      \* per parker: io_blocked
  iop,      \* per thread: IO_POLLING
  rl,       \* holder of the reactor lock
  note,     \* the OS poller has been notified
  item,     \* per item: armed, ready, got
  l,        \* the "async-io" thread: pc, eq (no round since it looked), sl, wq
  cnt,      \* BLOCK_ON_COUNT
  wk,       \* per thread: the call it is waking and how far it is
  nw        \* per call: wakes so far

vars == <<m, t, nx, tok, iob, iop, rl, note, item, l, cnt, wk, nw>>

Hd0 == [fam |-> "design", nh |-> Len(ITEMS), ns |-> Len(ITEMS), nt |-> 0, nb |-> Len(CALLS), no |-> 0, nw |-> Len(ITEMS), nq |-> 0,
        nth |-> L + NE, bo |-> 1, bad |-> 0, flt |-> 0, pp |-> <<>>]

MX == 5
Canon(q) ==
  [q EXCEPT
    !.spin = 0, !.spw = {},
    !.b = [b \in B |-> LET y == q.b[b]
                           d == IF y.polls < y.wakes THEN y.polls ELSE y.wakes
                       IN [y EXCEPT !.bp = IF @ = 0 THEN 0 ELSE 1,
                             !.open = {<<o[1], IF o[2] > y.bp THEN 2 ELSE 0>> : o \in @},
                             !.polls = @ - d, !.wakes = @ - d]],
    !.w = [k \in DOMAIN @ |-> [@[k] EXCEPT !.last = IF @ > 1 THEN 2 ELSE 0]],
    !.s = [i \in DOMAIN @ |-> [@[i] EXCEPT !.pc = 1, !.fp = 1]]]
Ev(e) == m' = Canon(Step(m, e @@ [n |-> 0], MX))
Same == m' = m

Init ==
  LET RECURSIVE Go(_, _)
      Go(q, i) == IF i > Len(ITEMS) THEN q ELSE
        LET e == [t |-> 0, n |-> 0]
            a1 == Step(q, e @@ [k |-> "add", fd |-> i, key |-> i, ok |-> 1, g |-> i], 1)
            a2 == Step(a1, e @@ [k |-> "new", h |-> i, fd |-> i, g |-> i, nb |-> 1], 1)
            a3 == Step(a2, e @@ [k |-> "slot", s |-> i, h |-> i, d |-> 0, f |-> 1], 1)
            a4 == Step(a3, e @@ [k |-> "pc", s |-> i, wk |-> i], 1)
        IN Go(Step(a4, e @@ [k |-> "pr", s |-> i, r |-> "pending"], 1), i + 1)
  IN /\ m = Canon(Go(Init0(Hd0), 1))
     /\ t = [p \in P |-> [pc |-> "out", b |-> 0, zero |-> FALSE, wq |-> <<>>]]
     /\ nx = [b \in B |-> "none"]
     /\ tok = [k \in K \cup {LK} |-> FALSE]
     /\ iob = [k \in K |-> FALSE]
     /\ iop = [x \in X |-> FALSE]
     /\ rl = 0 /\ note = FALSE
     /\ item = [i \in I |-> "armed"]
     /\ l = [pc |-> "top", eq |-> TRUE, sl |-> 0, wq |-> <<>>]
     /\ cnt = 0
     /\ wk = [x \in X |-> [b |-> 0, pc |-> "no"]]
     /\ nw = [b \in B |-> 0]

\* ---------------------------------------------------------------- waking a call
WakeStart(x, b) ==
  /\ wk' = [wk EXCEPT ![x] = [b |-> b, pc |-> "unp"]]
  /\ Ev([k |-> "wbs", b |-> b, t |-> x])
Unpark(x) ==
  LET k == Pk(wk[x].b) IN
  /\ wk[x].pc = "unp"
  /\ IF BUG = "load-first" /\ ~tok[k]
     THEN /\ wk' = [wk EXCEPT ![x].pc = IF ~iop[x] /\ iob[k] THEN "tnote" ELSE "tend"] /\ UNCHANGED tok
     ELSE /\ tok' = [tok EXCEPT ![k] = TRUE]
          /\ wk' = [wk EXCEPT ![x].pc = IF tok[k] THEN "end" ELSE "load"]
  /\ Same /\ UNCHANGED <<t, nx, iob, iop, rl, note, item, l, cnt, nw>>
UnparkLate(x) ==
  /\ wk[x].pc \in {"tnote", "tend"}
  /\ tok' = [tok EXCEPT ![Pk(wk[x].b)] = TRUE]
  /\ wk' = [wk EXCEPT ![x].pc = IF @ = "tnote" THEN "note" ELSE "end"]
  /\ Same /\ UNCHANGED <<t, nx, iob, iop, rl, note, item, l, cnt, nw>>
Load(x) ==
  /\ wk[x].pc = "load"
  /\ wk' = [wk EXCEPT ![x].pc = IF ~iop[x] /\ iob[Pk(wk[x].b)] /\ BUG # "no-notify" THEN "note" ELSE "end"]
  /\ Same /\ UNCHANGED <<t, nx, tok, iob, iop, rl, note, item, l, cnt, nw>>
Note(x) ==
  /\ wk[x].pc = "note" /\ note' = TRUE /\ wk' = [wk EXCEPT ![x].pc = "end"]
  /\ Same /\ UNCHANGED <<t, nx, tok, iob, iop, rl, item, l, cnt, nw>>
WakeEnd(x) ==
  /\ wk[x].pc = "end" /\ wk' = [wk EXCEPT ![x] = [b |-> 0, pc |-> "no"]]
  /\ Ev([k |-> "wbe", b |-> wk[x].b, t |-> x])
  /\ UNCHANGED <<t, nx, tok, iob, iop, rl, note, item, l, cnt, nw>>
Waking(x) == Unpark(x) \/ UnparkLate(x) \/ Load(x) \/ Note(x) \/ WakeEnd(x)

\* ---------------------------------------------------------------- the world
EnvWake(x) ==
  /\ x \in E /\ wk[x].pc = "no"
  /\ \E b \in B : /\ m.b[b].bp # 0 /\ nw[b] < MAXW /\ WakeStart(x, b)
                  /\ nw' = [nw EXCEPT ![b] = @ + 1]
  /\ UNCHANGED <<t, nx, tok, iob, iop, rl, note, item, l, cnt>>
Ready(i) ==
  /\ item[i] = "armed" /\ (ITEMS[i] # 0 => m.b[ITEMS[i]].bp # 0)
  /\ item' = [item EXCEPT ![i] = "ready"]
  /\ Ev([k |-> "rdy", h |-> i, r |-> 1, w |-> 0, t |-> 0])
  /\ UNCHANGED <<t, nx, tok, iob, iop, rl, note, l, cnt, wk, nw>>

\* ---------------------------------------------------------------- block_on
U == <<nx, tok, iob, iop, rl, note, item, l, cnt, wk, nw>>
To(p, s) == t' = [t EXCEPT ![p].pc = s]
Start(p) ==
  \E b \in B :
    /\ CALLS[b].th = p /\ nx[b] = "none"
    /\ \A a \in 1..(b - 1) : CALLS[a].th = p /\ CALLS[a].outer = CALLS[b].outer => nx[a] = "over"
    /\ IF Nested(b) THEN t[p].pc = "user" /\ t[p].b = CALLS[b].outer ELSE t[p].pc = "out"
    /\ nx' = [nx EXCEPT ![b] = "on"] /\ cnt' = cnt + 1
    /\ t' = [t EXCEPT ![p].pc = "poll", ![p].b = b]
    /\ Ev([k |-> "bc", b |-> b, t |-> p])
    /\ UNCHANGED <<tok, iob, iop, rl, note, item, l, wk, nw>>
Poll(p) ==
  /\ t[p].pc = "poll" /\ To(p, "user")
  /\ Ev([k |-> "bp", b |-> t[p].b, t |-> p]) /\ UNCHANGED U
\* the user's future returns (ready sooner or later)
PollRet(p) ==
  LET b == t[p].b IN
  /\ t[p].pc = "user"
  /\ \E rd \in BOOLEAN :
       /\ Ev([k |-> "bpr", b |-> b, r |-> IF rd THEN 1 ELSE 0, t |-> p])
       /\ To(p, IF rd THEN "fin" ELSE "chk")
  /\ UNCHANGED U
Fin(p) ==
  /\ t[p].pc = "fin" /\ To(p, "ret")
  /\ tok' = IF BUG = "no-reset" THEN tok ELSE [tok EXCEPT ![Pk(t[p].b)] = FALSE]
  /\ Same /\ UNCHANGED <<nx, iob, iop, rl, note, item, l, cnt, wk, nw>>
\* the count goes down, the "async-io" thread is told, the call returns
Ret(p) ==
  LET b == t[p].b IN
  /\ t[p].pc = "ret" /\ cnt' = cnt - 1
  /\ tok' = [tok EXCEPT ![LK] = TRUE]
  /\ nx' = [nx EXCEPT ![b] = "over"]
  /\ t' = [t EXCEPT ![p].pc = IF Nested(b) THEN "user" ELSE "out", ![p].b = CALLS[b].outer]
  /\ Ev([k |-> "br", b |-> b, v |-> b, t |-> p])
  /\ UNCHANGED <<iob, iop, rl, note, item, l, wk, nw>>
Chk(p) ==
  LET k == Pk(t[p].b) IN
  /\ t[p].pc = "chk"
  /\ IF tok[k] THEN tok' = [tok EXCEPT ![k] = FALSE] /\ To(p, "try0") ELSE To(p, "try") /\ UNCHANGED tok
  /\ Same /\ UNCHANGED <<nx, iob, iop, rl, note, item, l, cnt, wk, nw>>
\* notified: look at what is there, then poll
Try0(p) ==
  /\ t[p].pc = "try0"
  /\ IF rl = 0 THEN /\ rl' = p /\ iop' = [iop EXCEPT ![p] = TRUE]
                    /\ t' = [t EXCEPT ![p].pc = "react", ![p].zero = TRUE]
                    /\ l' = [l EXCEPT !.eq = FALSE]
     ELSE To(p, "poll") /\ UNCHANGED <<rl, iop, l>>
  /\ Same /\ UNCHANGED <<nx, tok, iob, note, item, cnt, wk, nw>>
Try(p) ==
  /\ t[p].pc = "try"
  /\ IF rl = 0 THEN rl' = p /\ To(p, "hog") ELSE To(p, "park") /\ UNCHANGED rl
  /\ Same /\ UNCHANGED <<nx, tok, iob, iop, note, item, l, cnt, wk, nw>>
Park(p) ==
  LET k == Pk(t[p].b) IN
  /\ t[p].pc = "park" /\ tok[k] /\ tok' = [tok EXCEPT ![k] = FALSE] /\ To(p, "poll")
  /\ Same /\ UNCHANGED <<nx, iob, iop, rl, note, item, l, cnt, wk, nw>>
Hog(p) ==
  LET k == Pk(t[p].b) IN
  /\ t[p].pc = "hog" /\ iop' = [iop EXCEPT ![p] = TRUE]
  /\ iob' = IF BUG = "publish-late" THEN iob ELSE [iob EXCEPT ![k] = TRUE]
  /\ To(p, IF BUG = "no-recheck" THEN "hreact" ELSE "hchk")
  /\ Same /\ UNCHANGED <<nx, tok, rl, note, item, l, cnt, wk, nw>>
Out(p, k) == /\ iop' = [iop EXCEPT ![p] = FALSE] /\ iob' = [iob EXCEPT ![k] = FALSE]
HChk(p) ==
  LET k == Pk(t[p].b) IN
  /\ t[p].pc = "hchk"
  /\ IF tok[k] THEN tok' = [tok EXCEPT ![k] = FALSE] /\ Out(p, k) /\ To(p, "unl")
     ELSE To(p, "hreact") /\ UNCHANGED <<tok, iop, iob>>
  /\ Same /\ UNCHANGED <<nx, rl, note, item, l, cnt, wk, nw>>
HReact(p) ==
  /\ t[p].pc = "hreact"
  /\ t' = [t EXCEPT ![p].pc = "react", ![p].zero = FALSE]
  /\ iob' = IF BUG = "publish-late" THEN [iob EXCEPT ![Pk(t[p].b)] = TRUE] ELSE iob
  /\ l' = [l EXCEPT !.eq = FALSE]
  /\ Same /\ UNCHANGED <<nx, tok, iop, rl, note, item, cnt, wk, nw>>
HChk2(p) ==
  LET k == Pk(t[p].b) IN
  /\ t[p].pc = "hchk2"
  /\ IF tok[k] THEN tok' = [tok EXCEPT ![k] = FALSE] /\ Out(p, k) /\ To(p, "unl")
     ELSE /\ \/ Out(p, k) /\ To(p, "hog")              \* not long yet
             \/ To(p, "give") /\ UNCHANGED <<iop, iob>>   \* for more than 500 us
          /\ UNCHANGED tok
  /\ Same /\ UNCHANGED <<nx, rl, note, item, l, cnt, wk, nw>>
Unlock(p) == /\ t[p].pc = "unl" /\ rl' = 0 /\ To(p, "poll")
             /\ Same /\ UNCHANGED <<nx, tok, iob, iop, note, item, l, cnt, wk, nw>>
Give(p) == /\ t[p].pc = "give" /\ rl' = (IF BUG = "keep-lock" THEN rl ELSE 0) /\ To(p, "give2")
           /\ Same /\ UNCHANGED <<nx, tok, iob, iop, note, item, l, cnt, wk, nw>>
Give2(p) == /\ t[p].pc = "give2" /\ To(p, "hpark")
            /\ tok' = [tok EXCEPT ![LK] = TRUE]
            /\ Same /\ UNCHANGED <<nx, iob, iop, rl, note, item, l, cnt, wk, nw>>
HPark(p) ==
  LET k == Pk(t[p].b) IN
  /\ t[p].pc = "hpark" /\ tok[k] /\ tok' = [tok EXCEPT ![k] = FALSE] /\ Out(p, k)
  /\ To(p, IF BUG = "keep-lock" THEN "unl" ELSE "poll")
  /\ Same /\ UNCHANGED <<nx, rl, note, item, l, cnt, wk, nw>>

\* ---------------------------------------------------------------- the OS
RdyI == {i \in I : item[i] = "ready"}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE a \in S : \A c \in S : a <= c IN <<a>> \o SeqOf(S \ {a})
Taken == [i \in I |-> IF item[i] = "ready" THEN "got" ELSE item[i]]
\* a round of react(): the counter has gone up on the way in; wait, collect
React(p) ==
  /\ t[p].pc = "react" /\ (t[p].zero \/ note \/ RdyI # {})
  /\ note' = FALSE /\ item' = Taken
  /\ t' = [t EXCEPT ![p].pc = "wake", ![p].wq = SeqOf(RdyI)]
  /\ Ev([k |-> "collect", t |-> p, evs |-> LET q == SeqOf(RdyI) IN [j \in DOMAIN q |-> [g |-> q[j], r |-> 1, w |-> 0]]])
  /\ UNCHANGED <<nx, tok, iob, iop, rl, l, cnt, wk, nw>>
ReactWake(p) ==
  LET i == t[p].wq[1] IN
  /\ t[p].pc = "wake" /\ t[p].wq # <<>> /\ wk[p].pc = "no"
  /\ t' = [t EXCEPT ![p].wq = Tail(@)]
  /\ IF ITEMS[i] = 0 THEN Ev([k |-> "wake", wk |-> i, t |-> p]) /\ UNCHANGED wk
     ELSE /\ wk' = [wk EXCEPT ![p] = [b |-> ITEMS[i], pc |-> "unp"]]
          /\ m' = Canon(Step(Step(m, [k |-> "wake", wk |-> i, t |-> p, n |-> 0], MX), [k |-> "wbs", b |-> ITEMS[i], t |-> p, n |-> 0], MX))
  /\ UNCHANGED <<nx, tok, iob, iop, rl, note, item, l, cnt, nw>>
ReactEnd(p) ==
  /\ t[p].pc = "wake" /\ t[p].wq = <<>> /\ wk[p].pc = "no"
  /\ IF t[p].zero THEN /\ iop' = [iop EXCEPT ![p] = FALSE] /\ To(p, "unl")
     ELSE To(p, "hchk2") /\ UNCHANGED iop
  /\ Same /\ UNCHANGED <<nx, tok, iob, rl, note, item, l, cnt, wk, nw>>

\* ---------------------------------------------------------------- the "async-io" thread
V == <<t, nx, iob, iop, item, wk, nw>>
LTop ==
  /\ l.pc = "top"
  /\ IF l.eq
     THEN IF rl = 0 THEN rl' = L /\ l' = [l EXCEPT !.pc = "react"]
          ELSE l' = [l EXCEPT !.pc = IF l.sl >= NSL THEN "lock" ELSE "slp"] /\ UNCHANGED rl
     ELSE l' = [l EXCEPT !.eq = TRUE, !.pc = "slp"] /\ UNCHANGED rl
  /\ Same /\ UNCHANGED V /\ UNCHANGED <<tok, note, cnt>>
LLock ==
  /\ l.pc = "lock" /\ rl = 0 /\ rl' = L /\ l' = [l EXCEPT !.pc = "react"]
  /\ Same /\ UNCHANGED V /\ UNCHANGED <<tok, note, cnt>>
LReact ==
  /\ l.pc = "react" /\ (note \/ RdyI # {})
  /\ note' = FALSE /\ item' = Taken /\ l' = [l EXCEPT !.pc = "wake", !.wq = SeqOf(RdyI)]
  /\ Ev([k |-> "collect", t |-> L, evs |-> LET q == SeqOf(RdyI) IN [j \in DOMAIN q |-> [g |-> q[j], r |-> 1, w |-> 0]]])
  /\ UNCHANGED <<t, nx, tok, iob, iop, rl, cnt, wk, nw>>
LWake ==
  LET i == l.wq[1] IN
  /\ l.pc = "wake" /\ l.wq # <<>> /\ wk[L].pc = "no"
  /\ l' = [l EXCEPT !.wq = Tail(@)]
  /\ IF ITEMS[i] = 0 THEN Ev([k |-> "wake", wk |-> i, t |-> L]) /\ UNCHANGED wk
     ELSE /\ wk' = [wk EXCEPT ![L] = [b |-> ITEMS[i], pc |-> "unp"]]
          /\ m' = Canon(Step(Step(m, [k |-> "wake", wk |-> i, t |-> L, n |-> 0], MX), [k |-> "wbs", b |-> ITEMS[i], t |-> L, n |-> 0], MX))
  /\ UNCHANGED <<t, nx, tok, iob, iop, rl, note, item, cnt, nw>>
LEnd ==
  /\ l.pc = "wake" /\ l.wq = <<>> /\ wk[L].pc = "no"
  /\ rl' = 0 /\ l' = [l EXCEPT !.pc = "slp", !.sl = 0, !.eq = TRUE]
  /\ Same /\ UNCHANGED V /\ UNCHANGED <<tok, note, cnt>>
\* sleep for a while if there are calls of block_on
LSleep ==
  /\ l.pc = "slp"
  /\ IF cnt = 0 THEN l' = [l EXCEPT !.pc = "top"] /\ UNCHANGED tok
     ELSE IF tok[LK] THEN l' = [l EXCEPT !.pc = "top", !.sl = 0, !.eq = TRUE] /\ tok' = [tok EXCEPT ![LK] = FALSE]
     ELSE /\ BUG # "park-for-good"
          /\ l' = [l EXCEPT !.pc = "top", !.sl = IF @ < NSL THEN @ + 1 ELSE @] /\ UNCHANGED tok
  /\ Same /\ UNCHANGED V /\ UNCHANGED <<rl, note, cnt>>

LNext == LTop \/ LLock \/ LReact \/ LWake \/ LEnd \/ LSleep \/ Waking(L)
PNext(p) == Poll(p) \/ Fin(p) \/ Ret(p) \/ Chk(p) \/ Try0(p) \/ Try(p) \/ Park(p) \/ Hog(p) \/ HChk(p) \/ HReact(p)
            \/ HChk2(p) \/ Unlock(p) \/ Give(p) \/ Give2(p) \/ HPark(p) \/ React(p) \/ ReactWake(p) \/ ReactEnd(p)
            \/ Waking(p)
Next == \/ \E x \in E : EnvWake(x) \/ Waking(x)
        \/ \E i \in I : Ready(i)
        \/ \E p \in P : Start(p) \/ PollRet(p) \/ PNext(p)
        \/ LNext
Fair == /\ WF_vars(LNext) /\ \A p \in P : WF_vars(PNext(p))
        /\ \A p \in P \ BUSY : WF_vars(PollRet(p))
        /\ \A x \in E : WF_vars(Waking(x))
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fair

\* ---------------------------------------------------------------- properties
Contract == m.bad = {}
OneDriver == Cardinality({p \in P : t[p].pc \in {"react", "wake", "hog", "hchk", "hreact", "hchk2", "unl"}}
                         \cup {x \in {L} : l.pc \in {"react", "wake"}}) <= 1
\* C09: a wake of a pending call leads to a poll (unless an inner call never ends)
Polled == \A b \in B : (m.b[b].pend /\ ~m.b[b].inpoll /\ CALLS[b].th \notin BUSY) ~> (~m.b[b].pend \/ m.b[b].rdy \/ m.b[b].inpoll)
Returned == \A b \in B : m.b[b].rdy ~> m.b[b].st = "returned"
\* C11: what is ready is delivered, whatever the threads do
Delivered == \A i \in I : (item[i] = "ready") ~> (item[i] = "got" /\ m.w[i].last > 1)
=================================================================================
