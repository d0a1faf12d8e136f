------------------------------- MODULE IoDesign -------------------------------
(***************************************************************************)
(* The readiness machinery of src/reactor.rs: sources with their two       *)
(* directions, tick counters, waker slots, one-shot interest in the OS     *)
(* poller, and the reactor thread going through react() for ever.          *)
(*                                                                         *)
(* Every action is one step of one thread between two points at which      *)
(* another thread can interfere (lock acquisitions, system calls, calls of *)
(* wakers).  Actions at the boundary of the library feed the contract      *)
(* monitor `m` with the very events that the harness records from the real *)
(* code, so that the contract is checked over all interleavings of the     *)
(* design, for histories of any length (positions of events and ticks are  *)
(* kept only up to order, which makes the state space finite).             *)
(*                                                                         *)
(* BUG names a wrong variant of one step; with each of them TLC must find  *)
(* a violation (a test of the contract and of the model, see DESIGN.md).   *)
(***************************************************************************)
EXTENDS Contract, TLC

CONSTANTS SLOTS,      \* <<[h, d, f], ...>>: the waits (f = 1: futures, f = 0: poll functions)
          NH,         \* number of handles
          FLT,        \* interest changes may fail
          HUP,        \* hang-ups happen
          TWO,        \* futures are polled with two different wakers
          BUG         \* "none" or the name of a wrong variant

S == 1..Len(SLOTS)
H == 1..NH
W == 1..(2 * Len(SLOTS))            \* two waker identities for every wait
D == 1..2
R == Len(SLOTS) + NH + 1            \* thread numbers: waits, handles, reactor
Wk(s) == IF ~TWO THEN {2 * s - 1} ELSE {2 * s - 1, 2 * s}

VARIABLES
  m,        \* the contract
  src,      \* per handle: key, tick[d], ticks[d], waker[d], wakers[d] (set of <<wait, waker>>)
  hst,      \* per handle: none, ins, live, del, close, gone
  fut,      \* per future: ticks, ins
  pc,       \* per wait: rest, call, mod, ret, drop, dret
  res,      \* per wait: result of the poll under way
  lock,     \* per handle: the wait that holds the state lock (0: nobody)
  ep,       \* per handle: interest held by the OS
  rdy,      \* per handle: readiness <<r, w, hup>>
  ticker,   \* the global round counter
  r,        \* the reactor thread: pc, tick, evs, wakers
  errs,     \* interest change failed in the poll under way
  idled     \* quiescence has been looked at

vars == <<m, src, hst, fut, pc, res, lock, ep, rdy, ticker, r, errs, idled>>

NoTicks == <<-1, -1>>
NoSrc == [key |-> 0, g |-> 0, tick |-> <<0, 0>>, ticks |-> <<NoTicks, NoTicks>>, waker |-> <<0, 0>>,
          wks |-> << {}, {} >>]
Off == [on |-> FALSE, r |-> FALSE, w |-> FALSE, live |-> FALSE]

Hd0 == [fam |-> "design", nh |-> NH, ns |-> Len(SLOTS), nt |-> 0, nb |-> 0, no |-> 0, nw |-> 2 * Len(SLOTS), nq |-> 0,
        nth |-> R, bo |-> 0, bad |-> 0, flt |-> IF FLT THEN 1 ELSE 0, pp |-> <<>>]

\* ---------------------------------------------------------------- positions up to order
\* Rules compare positions only in a few ways; everything else is forgotten.
OnS(h, d) == {i \in S : SLOTS[i].h = h /\ SLOTS[i].d = d}
Lc(q, h, d) == LET g == q.h[h].g IN IF g = 0 THEN 0 ELSE q.reg[g].lc[d]
\* the polls of poll functions under way, and the last collection
Open(q, h, d) == {q.s[i].pc : i \in {j \in OnS(h, d) : SLOTS[j].f = 0 /\ q.s[j].st = "call"}}
Val(q, h, d, x) == IF x = 0 THEN 0 ELSE 2 + 2 * Cardinality({y \in Open(q, h, d) \cup {Lc(q, h, d)} : y < x})
\* the beginning of a wait: before or after the last collection
Since(q, h, d, x) == IF x = 0 THEN 0 ELSE IF Lc(q, h, d) > x THEN 1
                     ELSE LET v == Val(q, h, d, Lc(q, h, d)) IN IF v < 2 THEN 2 ELSE v
\* the end of a poll: after which of the polls under way it came
Until(q, h, d, x) == LET B == {Val(q, h, d, c) : c \in {c \in Open(q, h, d) : c < x}}
                     IN IF B = {} THEN 1 ELSE 1 + CHOOSE v \in B : \A u \in B : u <= v
Pairs(q, h, d) ==
  LET P == {<<Since(q, h, d, p[1]), Until(q, h, d, p[2])>> : p \in q.h[h].gp[d]}
  IN {p \in P : ~\E o \in P : o # p /\ o[1] <= p[1] /\ o[2] >= p[2]}
\* collections of the reactor, ends of waits
GoneOf(q, hl, k) == IF k \in hl THEN q.w[k].gone ELSE 0
ClassG(q, hl) == {0, q.lc[R]} \cup {GoneOf(q, hl, k) : k \in W}
Rk(C, x) == Cardinality({y \in C : y < x})
M == 8 + 4 * Len(SLOTS)          \* more than any value above
\* hl: the wakers the library holds or is about to wake
SPIN == FALSE       \* whether rows of fruitless rounds are counted (C18; overridden in a configuration)
Canon(q, hl) ==
  LET G == ClassG(q, hl)
      HS(i) == SLOTS[i].h
      DS(i) == SLOTS[i].d
  IN [q EXCEPT
       !.spin = IF SPIN THEN @ ELSE 0, !.spw = IF SPIN THEN @ ELSE {},
       !.h = [h \in H |-> [@[h] EXCEPT !.dropped = 0, !.gp = [d \in D |-> Pairs(q, h, d)]]],
       !.reg = [g \in DOMAIN @ |->
                IF \E h \in H : q.h[h].g = g /\ q.h[h].st # "gone"
                THEN LET h == CHOOSE h \in H : q.h[h].g = g
                     IN [@[g] EXCEPT !.lc = <<Val(q, h, 1, @[1]), Val(q, h, 2, @[2])>>]
                ELSE [@[g] EXCEPT !.lc = <<0, 0>>]],
       !.s = [i \in S |-> [@[i] EXCEPT !.ex = IF q.s[i].st = "call" THEN @ ELSE FALSE, !.th = IF @ = 0 \/ q.s[i].st = "call" THEN @ ELSE 0,
                !.fp = IF SLOTS[i].f = 0 \/ q.s[i].st \in {"done", "dropped", "dropping"} THEN 0
                       ELSE Since(q, HS(i), DS(i), @),
                !.pc = IF SLOTS[i].f = 0 /\ q.s[i].st = "call" THEN Val(q, HS(i), DS(i), @)
                       ELSE IF q.s[i].st \in {"call", "pend"} THEN 1 ELSE 0]],
       !.w = [k \in W |-> [@[k] EXCEPT !.gone = Rk(G, GoneOf(q, hl, k)), !.last =
                IF \E i \in S : q.s[i].wk = k /\ q.s[i].st \in {"call", "pend"} /\ q.s[i].pc < @ THEN M ELSE 0]],
       !.lc = [i \in DOMAIN @ |-> IF i = R THEN Rk(G, @[i]) ELSE 0]]
NX(q) == M + 1

\* Events of the boundary.  `th` of a poll is needed to attribute a failed interest change.
\* (src' and r' are determined before m')
Held(sr) == UNION {UNION {(IF sr[h].waker[d] = 0 THEN {} ELSE {sr[h].waker[d]}) \cup {p[2] : p \in sr[h].wks[d]} : d \in D} : h \in H}
HL(sr, re) == Held(sr) \cup {re.wk[i] : i \in DOMAIN re.wk}
E1(e) == m' = Canon(Step(m, e, NX(m)), HL(src, r))
E2(e, f) == m' = Canon(LET a == Step(m, e, NX(m)) IN Step(a, f, NX(m) + 1), HL(src, r))
Same == m' = m

Ev(k) == [k |-> k, t |-> R, n |-> 0]

\* ---------------------------------------------------------------- ticks up to order
\* `0` is the value of a fresh source and the start of the counter.
TickVals(sr, fu, re, tk) ==
  UNION {{sr[h].tick[d] : d \in D} : h \in H}
  \cup UNION {UNION {{sr[h].ticks[d][1], sr[h].ticks[d][2]} : d \in D} : h \in H}
  \cup UNION {{fu[i].ticks[1], fu[i].ticks[2]} : i \in S} \cup {re.tick, tk, 0, -1}
\* Applied when the counter grows.
Squeeze(sr, fu, re, tk) ==
  LET V == TickVals(sr, fu, re, tk)
      K == [x \in V |-> Cardinality({y \in V : y < x}) - 1]
  IN /\ src' = [h \in H |-> [sr[h] EXCEPT !.tick = <<K[@[1]], K[@[2]]>>,
                     !.ticks = << <<K[@[1][1]], K[@[1][2]]>>, <<K[@[2][1]], K[@[2][2]]>> >>]]
     /\ fut' = [i \in S |-> [fu[i] EXCEPT !.ticks = <<K[@[1]], K[@[2]]>>]]
     /\ r' = [re EXCEPT !.tick = K[@]]
     /\ ticker' = K[tk]

\* ---------------------------------------------------------------- initial state
Live0(h) == [NoSrc EXCEPT !.key = h, !.g = h]
Init ==
  LET RECURSIVE Go(_, _)
      Go(q, h) == IF h > NH THEN q
                  ELSE IF h > 1 /\ NH > 1 /\ h = NH THEN q        \* the last handle of several is made later
                  ELSE LET a == Step(q, [k |-> "add", fd |-> h, key |-> h, ok |-> 1, g |-> h], 1)
                           b == Step(a, [k |-> "new", h |-> h, fd |-> h, g |-> h, nb |-> 1], 1)
                       IN Go(b, h + 1)
      RECURSIVE Decl(_, _)
      Decl(q, i) == IF i > Len(SLOTS) THEN q
                    ELSE Decl(Step(q, [k |-> "slot", s |-> i, h |-> SLOTS[i].h, d |-> SLOTS[i].d - 1, f |-> SLOTS[i].f], 1), i + 1)
      later == IF NH > 1 THEN {NH} ELSE {}
  IN /\ m = Decl(Go(Init0(Hd0), 1), 1)
     /\ src = [h \in H |-> IF h \in later THEN NoSrc ELSE Live0(h)]
     /\ hst = [h \in H |-> IF h \in later THEN "none" ELSE "live"]
     /\ fut = [i \in S |-> [ticks |-> NoTicks, ins |-> FALSE]]
     /\ pc = [i \in S |-> "rest"]
     /\ res = [i \in S |-> "none"]
     /\ lock = [h \in H |-> 0]
     /\ ep = [h \in H |-> IF h \in later THEN Off ELSE [Off EXCEPT !.on = TRUE]]
     /\ rdy = [h \in H |-> <<FALSE, FALSE, FALSE>>]
     /\ ticker = 0
     /\ r = [pc |-> "top", tick |-> 0, evs |-> {}, wk |-> <<>>, src |-> FALSE]
     /\ errs = [i \in S |-> FALSE]
     /\ idled = FALSE

\* ---------------------------------------------------------------- helpers
EmptyDir(x, d) == x.waker[d] = 0 /\ x.wks[d] = {}
DirWakers(x, d) == (IF x.waker[d] = 0 THEN {} ELSE {x.waker[d]}) \cup {p[2] : p \in x.wks[d]}
RECURSIVE SeqOf(_)
SeqOf(T) == IF T = {} THEN <<>> ELSE LET a == CHOOSE a \in T : \A b \in T : a <= b IN <<a>> \o SeqOf(T \ {a})
Interest(x) == [on |-> TRUE, live |-> TRUE, r |-> ~EmptyDir(x, RD), w |-> ~EmptyDir(x, WR)]
Others == <<src, hst, fut, lock, ep, rdy, ticker, r>>

\* ---------------------------------------------------------------- waits
\* The caller enters a poll with one of its two wakers.
PollCall(s) ==
  /\ pc[s] = "rest" /\ hst[SLOTS[s].h] = "live" /\ m.s[s].st \in {"idle", "pend"}
  /\ \E wk \in Wk(s) :
        E1([k |-> "pc", s |-> s, wk |-> wk, t |-> s, n |-> 0])
  /\ pc' = [pc EXCEPT ![s] = "call"] /\ res' = [res EXCEPT ![s] = "none"]
  /\ errs' = [errs EXCEPT ![s] = FALSE]
  /\ idled' = FALSE
  /\ UNCHANGED Others

\* Ready::poll, from taking the state lock to the interest change (if one is needed).
FutLocked(s) ==
  LET h == SLOTS[s].h  d == SLOTS[s].d  x == src[h]  f == fut[s]
      fresh == IF BUG = "tick-one" THEN x.tick[d] # f.ticks[2] ELSE x.tick[d] # f.ticks[1] /\ x.tick[d] # f.ticks[2]
  IN
  /\ pc[s] = "call" /\ SLOTS[s].f = 1 /\ lock[h] = 0
  /\ IF f.ins /\ fresh
     THEN /\ res' = [res EXCEPT ![s] = "ready"] /\ pc' = [pc EXCEPT ![s] = "ret"]
          /\ UNCHANGED <<src, fut, lock>>
     ELSE LET tk == IF BUG = "tick-stale" THEN <<x.tick[d], x.tick[d]>> ELSE <<ticker, x.tick[d]>>
              x1 == [x EXCEPT !.wks[d] = {p \in @ : p[1] # s} \cup {<<s, m.s[s].wk>>}]
              was == EmptyDir(x, d)
          IN /\ fut' = [fut EXCEPT ![s] = IF f.ins THEN f ELSE [ticks |-> tk, ins |-> TRUE]]
             /\ src' = [src EXCEPT ![h] = x1]
             /\ res' = [res EXCEPT ![s] = "pending"]
             /\ IF was THEN pc' = [pc EXCEPT ![s] = "mod"] /\ lock' = [lock EXCEPT ![h] = s]
                ELSE pc' = [pc EXCEPT ![s] = "ret"] /\ UNCHANGED lock
  /\ Same /\ idled' = FALSE
  /\ UNCHANGED <<hst, ep, rdy, ticker, r, errs>>

\* Source::poll_ready
FnLocked(s) ==
  LET h == SLOTS[s].h  d == SLOTS[s].d  x == src[h]  t == x.ticks[d]
      wk == m.s[s].wk
  IN
  /\ pc[s] = "call" /\ SLOTS[s].f = 0 /\ lock[h] = 0
  /\ IF t # NoTicks /\ x.tick[d] # t[1] /\ x.tick[d] # t[2]
     THEN /\ res' = [res EXCEPT ![s] = "ready"] /\ pc' = [pc EXCEPT ![s] = "ret"]
          /\ src' = [src EXCEPT ![h].ticks[d] = NoTicks]
          /\ Same /\ UNCHANGED lock
     ELSE /\ res' = [res EXCEPT ![s] = "pending"]
          /\ IF x.waker[d] = wk
             THEN pc' = [pc EXCEPT ![s] = "ret"] /\ Same /\ UNCHANGED <<src, lock>>
             ELSE /\ IF x.waker[d] # 0 /\ BUG # "displaced"
                     THEN E1([k |-> "wake", wk |-> x.waker[d], t |-> s, n |-> 0]) ELSE Same
                  /\ src' = [src EXCEPT ![h].waker[d] = wk,
                               ![h].ticks[d] = <<ticker, x.tick[d]>>]
                  /\ IF EmptyDir(x, d)
                     THEN pc' = [pc EXCEPT ![s] = "mod"] /\ lock' = [lock EXCEPT ![h] = s]
                     ELSE pc' = [pc EXCEPT ![s] = "ret"] /\ UNCHANGED lock
  /\ idled' = FALSE
  /\ UNCHANGED <<hst, fut, ep, rdy, ticker, r, errs>>

\* The interest change at the end of a poll, still under the state lock.
Modify(s) ==
  LET h == SLOTS[s].h  d == SLOTS[s].d  x == src[h] IN
  /\ pc[s] = "mod"
  /\ pc' = [pc EXCEPT ![s] = "ret"] /\ lock' = [lock EXCEPT ![h] = 0] /\ idled' = FALSE
  /\ \/ /\ ep' = [ep EXCEPT ![h] = IF BUG = "mod-one-dir"
                     THEN [on |-> TRUE, live |-> TRUE, r |-> d = RD, w |-> d = WR] ELSE Interest(x)]
        /\ UNCHANGED <<src, res, errs>> /\ Same
     \/ /\ FLT
        /\ res' = [res EXCEPT ![s] = IF BUG = "swallow" THEN "pending" ELSE "err"]
        /\ errs' = [errs EXCEPT ![s] = TRUE]
        /\ src' = IF BUG = "keep-waker" THEN src
                  ELSE IF SLOTS[s].f = 1
                       THEN [src EXCEPT ![h].wks[d] = {p \in @ : p[1] # s}]
                       ELSE [src EXCEPT ![h].waker[d] = 0, ![h].ticks[d] = NoTicks]
        /\ E1([k |-> "mod", ok |-> 0, t |-> s, n |-> 0, g |-> x.g])
        /\ UNCHANGED ep
  /\ UNCHANGED <<hst, fut, rdy, ticker, r>>

PollRet(s) ==
  /\ pc[s] = "ret" /\ pc' = [pc EXCEPT ![s] = "rest"]
  /\ E1([k |-> "pr", s |-> s, r |-> res[s], t |-> s, n |-> 0])
  /\ res' = [res EXCEPT ![s] = "none"] /\ errs' = [errs EXCEPT ![s] = FALSE]
  /\ idled' = FALSE /\ UNCHANGED Others

\* Drop for Ready
DropCall(s) ==
  /\ pc[s] = "rest" /\ SLOTS[s].f = 1 /\ m.s[s].st \in {"idle", "pend", "done"} /\ hst[SLOTS[s].h] = "live"
  /\ E1([k |-> "sd", s |-> s, t |-> s, n |-> 0])
  /\ pc' = [pc EXCEPT ![s] = "drop"] /\ idled' = FALSE
  /\ UNCHANGED <<res, errs>> /\ UNCHANGED Others
DropLocked(s) ==
  LET h == SLOTS[s].h  d == SLOTS[s].d IN
  /\ pc[s] = "drop" /\ lock[h] = 0
  /\ src' = IF BUG = "drop-leak" THEN src ELSE
            IF BUG = "drop-all" THEN [src EXCEPT ![h].wks[d] = {}]
            ELSE [src EXCEPT ![h].wks[d] = {p \in @ : p[1] # s}]
  /\ fut' = [fut EXCEPT ![s] = [ticks |-> NoTicks, ins |-> FALSE]]
  /\ pc' = [pc EXCEPT ![s] = "dret"] /\ Same /\ idled' = FALSE
  /\ UNCHANGED <<hst, res, lock, ep, rdy, ticker, r, errs>>
DropRet(s) ==
  /\ pc[s] = "dret" /\ pc' = [pc EXCEPT ![s] = "rest"]
  /\ E1([k |-> "sdr", s |-> s, t |-> s, n |-> 0])
  /\ idled' = FALSE /\ UNCHANGED <<res, errs>> /\ UNCHANGED Others

\* ---------------------------------------------------------------- handles
Free(k) == ~\E h \in H : src[h].key = k
MinFree == CHOOSE k \in 1..(NH + 1) : Free(k) /\ \A j \in 1..(k - 1) : ~Free(j)
HT(h) == Len(SLOTS) + h

\* insert_io: a slot of the table under the table's lock, ...
NewInsert(h) ==
  /\ hst[h] = "none" /\ ~r.src
  /\ src' = [src EXCEPT ![h] = [NoSrc EXCEPT !.key = MinFree]]
  /\ hst' = [hst EXCEPT ![h] = "ins"] /\ idled' = FALSE
  /\ Same /\ UNCHANGED <<fut, pc, res, lock, ep, rdy, ticker, r, errs>>
\* ... then the registration with the OS.
NewAdd(h) ==
  LET g == Len(m.reg) + 1 IN
  /\ hst[h] = "ins"
  /\ \/ /\ E2([k |-> "add", fd |-> h, key |-> src[h].key, ok |-> 1, g |-> g, t |-> HT(h), n |-> 0],
              [k |-> "new", h |-> h, fd |-> h, g |-> g, nb |-> 1, t |-> HT(h), n |-> 0])
        /\ hst' = [hst EXCEPT ![h] = "live"]
        /\ src' = [src EXCEPT ![h].g = g]
        /\ ep' = [ep EXCEPT ![h] = [Off EXCEPT !.on = TRUE]]
     \/ /\ FLT /\ ~r.src
        /\ E1([k |-> "newerr", h |-> h, fd |-> h, dup |-> 0, t |-> HT(h), n |-> 0])
        /\ hst' = [hst EXCEPT ![h] = "gone"]
        /\ src' = [src EXCEPT ![h] = NoSrc]
        /\ UNCHANGED ep
  /\ idled' = FALSE
  /\ UNCHANGED <<fut, pc, res, lock, rdy, ticker, r, errs>>

Unused(h) == \A s \in S : SLOTS[s].h = h =>
               /\ pc[s] = "rest"
               /\ m.s[s].st \in (IF SLOTS[s].f = 1 THEN {"idle", "dropped"} ELSE {"idle", "pend"})
               /\ ~fut[s].ins
DropH(h) ==
  /\ NH > 1 /\ hst[h] = "live" /\ Unused(h)
  /\ E1([k |-> "hd", h |-> h, t |-> HT(h), n |-> 0])
  /\ hst' = [hst EXCEPT ![h] = IF BUG = "close-first" THEN "close1" ELSE "del"] /\ idled' = FALSE
  /\ UNCHANGED <<src, fut, pc, res, lock, ep, rdy, ticker, r, errs>>
\* remove_io: out of the table and out of the OS, under the table's lock
RemoveIo(h) ==
  /\ hst[h] \in {"del", "del2"} /\ ~r.src
  /\ E1([k |-> "del", g |-> src[h].g, ok |-> 1, t |-> HT(h), n |-> 0])
  /\ hst' = [hst EXCEPT ![h] = IF @ = "del" THEN "close" ELSE "end"]
  /\ src' = [src EXCEPT ![h].key = 0]
  /\ ep' = [ep EXCEPT ![h] = Off] /\ idled' = FALSE
  /\ UNCHANGED <<fut, pc, res, lock, rdy, ticker, r, errs>>
CloseFd(h) ==
  /\ hst[h] \in {"close", "close1"}
  /\ E1([k |-> "close", g |-> IF hst[h] = "close1" THEN src[h].g ELSE 0, fd |-> h, t |-> HT(h), n |-> 0])
  /\ hst' = [hst EXCEPT ![h] = IF @ = "close" THEN "end" ELSE "del2"] /\ idled' = FALSE
  /\ UNCHANGED <<src, fut, pc, res, lock, ep, rdy, ticker, r, errs>>
DropHRet(h) ==
  /\ hst[h] = "end"
  /\ E1([k |-> "hdr", h |-> h, t |-> HT(h), n |-> 0])
  /\ hst' = [hst EXCEPT ![h] = "gone"]
  /\ src' = [src EXCEPT ![h] = NoSrc] /\ idled' = FALSE        \* the poll functions' wakers go with it
  /\ UNCHANGED <<fut, pc, res, lock, ep, rdy, ticker, r, errs>>

\* ---------------------------------------------------------------- the world
SetRdy(h) ==
  /\ hst[h] = "live"
  /\ \E a, b, c \in BOOLEAN :
       /\ <<a, b, c>> # rdy[h] /\ (c => HUP) /\ (rdy[h][3] => c)
       /\ (c => a /\ b)
       /\ rdy' = [rdy EXCEPT ![h] = <<a, b, c>>]
       /\ E1([k |-> "rdy", h |-> h, r |-> IF a THEN 1 ELSE 0, w |-> IF b THEN 1 ELSE 0, t |-> 0, n |-> 0])
  /\ idled' = FALSE
  /\ UNCHANGED <<src, hst, fut, pc, res, lock, ep, ticker, r, errs>>

\* ---------------------------------------------------------------- the reactor
\* What the OS would report for a handle now
RepR(h) == (ep[h].r /\ rdy[h][1]) \/ rdy[h][3]
RepW(h) == (ep[h].w /\ rdy[h][2]) \/ rdy[h][3]
Fires(h) == ep[h].on /\ ep[h].live /\ (RepR(h) \/ RepW(h))

Bump ==
  /\ r.pc = "top"
  /\ IF BUG = "late-bump" THEN r' = [r EXCEPT !.pc = "wait"] /\ UNCHANGED <<src, fut, ticker>>
     ELSE LET t == ticker + 1 IN Squeeze(src, fut, [r EXCEPT !.pc = "wait", !.tick = t], t)
  /\ idled' = FALSE /\ Same
  /\ UNCHANGED <<hst, pc, res, lock, ep, rdy, errs>>

Collect1 ==
  /\ r.pc = "wait"
  /\ \E F \in (SUBSET {h \in H : Fires(h)}) \ {{}} :
       /\ r' = [r EXCEPT !.pc = IF BUG = "late-bump" THEN "bump" ELSE "lock", !.evs = {<<src[h].key, RepR(h), RepW(h), h>> : h \in F}]
       /\ ep' = [h \in H |-> IF h \in F THEN [ep[h] EXCEPT !.r = FALSE, !.w = FALSE, !.live = FALSE] ELSE ep[h]]
       /\ E1([k |-> "collect", t |-> R, n |-> 0,
              evs |-> LET q == SeqOf(F) IN [i \in DOMAIN q |->
                        [g |-> src[q[i]].g, r |-> IF RepR(q[i]) THEN 1 ELSE 0, w |-> IF RepW(q[i]) THEN 1 ELSE 0]]])
  /\ idled' = FALSE
  /\ UNCHANGED <<src, hst, fut, pc, res, lock, rdy, ticker, errs>>
LateBump ==
  /\ r.pc = "bump"
  /\ LET t == ticker + 1 IN Squeeze(src, fut, [r EXCEPT !.pc = "lock", !.tick = t], t)
  /\ Same /\ idled' = FALSE /\ UNCHANGED <<hst, pc, res, lock, ep, rdy, errs>>

LockSources ==
  /\ r.pc = "lock" /\ r' = [r EXCEPT !.pc = "deliver", !.src = TRUE]
  /\ Same /\ idled' = FALSE /\ UNCHANGED <<src, hst, fut, pc, res, lock, ep, rdy, ticker, errs>>

\* One event of the list: ticks, wakers, and interest again for those who still wait.
Deliver ==
  /\ r.pc = "deliver" /\ r.evs # {}
  /\ \E e \in r.evs :
       LET T == {h \in H : src[h].key = e[1]} IN
       IF T = {} THEN /\ r' = [r EXCEPT !.evs = @ \ {e}] /\ UNCHANGED <<src, ep>> /\ Same
       ELSE LET h == CHOOSE h \in T : TRUE
                x == src[h]
                fire(d) == (d = RD /\ e[2]) \/ (d = WR /\ e[3]) \/ BUG = "both-dirs"
                x1 == [x EXCEPT !.tick = [d \in D |-> IF fire(d) THEN r.tick ELSE @[d]],
                                !.waker = [d \in D |-> IF fire(d) THEN 0 ELSE @[d]],
                                !.wks = [d \in D |-> IF fire(d) THEN {} ELSE @[d]]]
                w1 == SeqOf(UNION {IF fire(d) THEN DirWakers(x, d) ELSE {} : d \in D})
                again == ~EmptyDir(x1, RD) \/ ~EmptyDir(x1, WR)
            IN /\ lock[h] = 0
               /\ \/ /\ src' = [src EXCEPT ![h] = x1]
                     /\ r' = [r EXCEPT !.evs = @ \ {e}, !.wk = @ \o w1]
                     /\ ep' = IF again /\ ep[h].on /\ BUG # "no-rearm" THEN [ep EXCEPT ![h] = Interest(x1)]
                              ELSE IF ep[h].on /\ BUG = "always-rearm" THEN [ep EXCEPT ![h] = Interest(x)] ELSE ep
                     /\ Same
                  \/ /\ FLT /\ again
                     /\ LET x2 == IF BUG = "lost-on-error" THEN x1 ELSE [x1 EXCEPT !.waker = <<0, 0>>, !.wks = << {}, {} >>]
                            w2 == IF BUG = "lost-on-error" THEN <<>> ELSE SeqOf(DirWakers(x1, RD) \cup DirWakers(x1, WR))
                        IN /\ src' = [src EXCEPT ![h] = x2]
                           /\ r' = [r EXCEPT !.evs = @ \ {e}, !.wk = @ \o w1 \o w2]
                     /\ UNCHANGED ep
                     /\ E1([k |-> "mod", ok |-> 0, t |-> R, n |-> 0, g |-> x.g])
  /\ idled' = FALSE
  /\ UNCHANGED <<hst, fut, pc, res, lock, rdy, ticker, errs>>
Delivered ==
  /\ r.pc = "deliver" /\ r.evs = {} /\ r' = [r EXCEPT !.pc = "wake", !.src = FALSE]
  /\ Same /\ idled' = FALSE /\ UNCHANGED <<src, hst, fut, pc, res, lock, ep, rdy, ticker, errs>>

WakeOne ==
  /\ r.pc = "wake" /\ r.wk # <<>>
  /\ E1([k |-> "wake", wk |-> r.wk[1], t |-> R, n |-> 0])
  /\ r' = [r EXCEPT !.wk = Tail(@)]
  /\ idled' = FALSE /\ UNCHANGED <<src, hst, fut, pc, res, lock, ep, rdy, ticker, errs>>
Woke ==
  /\ r.pc = "wake" /\ r.wk = <<>> /\ r' = [r EXCEPT !.pc = "top"]
  /\ Same /\ idled' = FALSE /\ UNCHANGED <<src, hst, fut, pc, res, lock, ep, rdy, ticker, errs>>

\* ---------------------------------------------------------------- quiescence
Quiet == /\ r.pc = "wait" /\ \A h \in H : ~Fires(h)
         /\ \A s \in S : pc[s] = "rest"
         /\ \A h \in H : hst[h] \in {"none", "live", "gone"}
IdleEv ==
  /\ Quiet /\ ~idled /\ idled' = TRUE
  /\ E1([k |-> "idle", from |-> 0, live |-> SeqOf(Held(src)), regs |-> SeqOf({g \in DOMAIN m.reg : m.reg[g].on}), t |-> 0, n |-> 0])
  /\ UNCHANGED <<src, hst, fut, pc, res, lock, ep, rdy, ticker, r, errs>>

RNext == Bump \/ Collect1 \/ LateBump \/ LockSources \/ Deliver \/ Delivered \/ WakeOne \/ Woke
SNext(s) == FutLocked(s) \/ FnLocked(s) \/ Modify(s) \/ PollRet(s) \/ DropLocked(s) \/ DropRet(s)
HNext(h) == NewAdd(h) \/ RemoveIo(h) \/ CloseFd(h) \/ DropHRet(h)

Next == \/ \E s \in S : PollCall(s) \/ DropCall(s) \/ SNext(s)
        \/ \E h \in H : SetRdy(h) \/ NewInsert(h) \/ DropH(h) \/ HNext(h)
        \/ RNext \/ IdleEv

Spec == Init /\ [][Next]_vars
\* What the library does on its own it does eventually.
Fair == /\ WF_vars(RNext) /\ \A s \in S : WF_vars(SNext(s)) /\ \A h \in H : WF_vars(HNext(h))
FairSpec == Spec /\ Fair

\* ---------------------------------------------------------------- properties
Contract == m.bad = {}
\* A wait on a handle that stays ready is woken, cancelled or polled again.
Served == \A s \in S :
  (/\ m.s[s].st = "pend" /\ ~Woken(m, m.s[s].wk, m.s[s].pc)
   /\ rdy[SLOTS[s].h][SLOTS[s].d])
  ~> (\/ m.s[s].st # "pend" \/ Woken(m, m.s[s].wk, m.s[s].pc)
      \/ ~rdy[SLOTS[s].h][SLOTS[s].d] \/ hst[SLOTS[s].h] # "live"
      \/ (SLOTS[s].f = 0 /\ src[SLOTS[s].h].waker[SLOTS[s].d] # m.s[s].wk))
===============================================================================
