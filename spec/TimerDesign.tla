------------------------------ MODULE TimerDesign ------------------------------
(***************************************************************************)
(* Timers: the Timer objects of src/lib.rs, the bounded queue of timer     *)
(* operations, the ordered map, and the reactor thread that applies the    *)
(* operations, fires what is due and sleeps until the next deadline or a   *)
(* notification (src/reactor.rs: insert_timer, remove_timer,               *)
(* process_timers, react).                                                 *)
(*                                                                         *)
(* The clock may advance between any two steps.  Each timer is used by a   *)
(* thread of its own.  Boundary actions feed the contract monitor `m`.     *)
(* Abstraction: the reactor sleeps until the absolute deadline, not for    *)
(* the time that was left when it read the clock.                          *)
(***************************************************************************)
EXTENDS Contract, TLC

CONSTANTS NT,         \* timers
          TMAX,       \* the last instant of the clock
          CAP,        \* capacity of the queue of operations
          NW,         \* wakers per timer
          OPS,        \* calls per timer (99: any number)
          PER,        \* intervals (of period 1) are used too
          BUG

T == 1..NT
W == 1..(NT * NW)
R == NT + 1
Wk(t) == {(t - 1) * NW + i : i \in 1..NW}
NO == 99          \* no deadline

VARIABLES m, clk,
  tm,       \* per timer: st (none/live/gone), when, per, id, wk (0: no waker remembered)
  c,        \* per timer, its thread: pc, and what is left to do
  q,        \* queue of operations
  map,      \* registered timers: set of [when, id, wk]
  tlock,    \* holder of the map's lock: 0 nobody, R the reactor, t a thread
  note,     \* the poller has been notified
  r,        \* the reactor
  idled

vars == <<m, clk, tm, c, q, map, tlock, note, r, idled>>

Hd0 == [fam |-> "design", nh |-> 0, ns |-> 0, nt |-> NT, nb |-> 0, no |-> 0, nw |-> NT * NW, nq |-> 0,
        nth |-> R, bo |-> 0, bad |-> 0, flt |-> 0, pp |-> <<>>]

\* ---------------------------------------------------------------- contract state up to order
MX == 9
Canon(x, now, hl) ==
  [x EXCEPT
    !.spin = 0, !.spw = {},
    !.t = [i \in T |-> LET y == x.t[i] IN
            IF y.st = "dropped" THEN [NoTimer EXCEPT !.st = "dropped"]
            ELSE [y EXCEPT !.pc = IF @ = 0 THEN 0 ELSE 1, !.set = 0,
                    !.pn = IF y.st = "call" THEN @ ELSE 0, !.sn = IF y.st = "call" THEN @ ELSE 0]],
    !.w = [k \in W |->
       LET i == (k - 1) \div NW + 1
           since == IF x.t[i].pc > x.t[i].set THEN x.t[i].pc ELSE x.t[i].set
       IN [@[k] EXCEPT !.last = IF x.t[i].wk = k /\ @ > since THEN MX ELSE 0,
                       !.nb = IF @ <= now \/ k \notin hl THEN 0 ELSE @,
                       !.rel = IF k \notin hl THEN BIG ELSE IF @ <= now THEN 0 ELSE @, !.gone = 0]],
    !.lc = [i \in DOMAIN @ |-> 0]]
\* hl: the wakers that may still be woken or that the users' calls hold
Held == {x.wk : x \in map} \cup {q[i].wk : i \in DOMAIN q} \cup {tm[t].wk : t \in T}
HL == Held \cup {r.wk[i] : i \in DOMAIN r.wk} \cup {c[t].wk : t \in T}
      \cup UNION {{c[t].todo[i].wk : i \in DOMAIN c[t].todo} : t \in T} \cup {m.t[t].wk : t \in T}
E(e) == m' = Canon(Step(m, e @@ [n |-> clk], MX + 1), clk, HL)
Same == m' = m

\* ---------------------------------------------------------------- initial state
Init ==
  /\ m = Init0(Hd0) /\ clk = 0
  /\ tm = [t \in T |-> [st |-> "none", when |-> NO, per |-> FALSE, id |-> 0, wk |-> 0]]
  /\ c = [t \in T |-> [pc |-> "rest", todo |-> <<>>, ev |-> [k |-> "none"], wk |-> 0, n |-> 0]]
  /\ q = <<>> /\ map = {} /\ tlock = 0 /\ note = FALSE
  /\ r = [pc |-> "lock", pass |-> 1, now |-> 0, wk |-> <<>>, dl |-> NO, zero |-> FALSE]
  /\ idled = FALSE

\* ---------------------------------------------------------------- identifiers
Used == {x.id : x \in map} \cup {q[i].id : i \in DOMAIN q} \cup {tm[t].id : t \in T}
        \cup UNION {{c[t].todo[i].id : i \in DOMAIN c[t].todo} : t \in T}
NewId == CHOOSE i \in 1..20 : i \notin Used /\ \A j \in 1..(i - 1) : j \in Used

Ins(when, id, wk) == [o |-> "ins", when |-> when, id |-> id, wk |-> wk]
Rem(when, id) == [o |-> "rem", when |-> when, id |-> id, wk |-> 0]
\* Timer::clear / Drop: only a registered deadline has an operation to undo
Undo(t) == IF tm[t].when # NO /\ tm[t].wk # 0 THEN <<Rem(tm[t].when, tm[t].id)>> ELSE <<>>

Vals == {v \in {clk, clk + 1, clk + 2} : v <= TMAX} \cup {NO}
Lg(v) == IF v = NO THEN [f |-> "after", d |-> NEVER, p |-> NEVER, c |-> clk]
         ELSE [f |-> "at", d |-> v, p |-> NEVER, c |-> clk]
LgP(v) == [f |-> "interval_at", d |-> v, p |-> 1, c |-> clk]

May(t) == OPS = 99 \/ c[t].n < OPS
Count(t) == IF OPS = 99 THEN 0 ELSE c[t].n + 1

\* ---------------------------------------------------------------- the threads
TNew(t) ==
  /\ tm[t].st = "none" /\ idled' = FALSE
  /\ \E v \in Vals, p \in BOOLEAN :
       /\ p => PER /\ v # NO
       /\ tm' = [tm EXCEPT ![t] = [@ EXCEPT !.st = "live", !.when = v, !.per = p]]
       /\ E([k |-> "tnew", tm |-> t, t |-> t] @@ (IF p THEN LgP(v) ELSE Lg(v)))
  /\ UNCHANGED <<clk, c, q, map, tlock, note, r>>

PollCall(t) ==
  /\ tm[t].st = "live" /\ c[t].pc = "rest" /\ May(t) /\ idled' = FALSE
  /\ \E k \in Wk(t) : /\ c' = [c EXCEPT ![t] = [@ EXCEPT !.pc = "poll", !.wk = k, !.n = Count(t)]]
                      /\ E([k |-> "tpc", tm |-> t, wk |-> k, t |-> t])
  /\ UNCHANGED <<clk, tm, q, map, tlock, note, r>>

\* poll_next, up to its last operation on the queue
Poll(t) ==
  LET x == tm[t]  k == c[t].wk  n == NewId
      ready(v) == [k |-> "tpr", tm |-> t, r |-> "ready", v |-> v, vn |-> 0, t |-> t]
      pend == [k |-> "tpr", tm |-> t, r |-> "pending", v |-> 0, vn |-> 0, t |-> t]
      go(todo, ev) == c' = [c EXCEPT ![t] = [@ EXCEPT !.pc = "do", !.todo = todo, !.ev = ev]]
  IN
  /\ c[t].pc = "poll" /\ Same /\ idled' = FALSE
  /\ IF x.when # NO /\ (clk >= x.when \/ (BUG = "early" /\ clk + 1 >= x.when))
     THEN IF x.per
          THEN /\ tm' = [tm EXCEPT ![t] = [@ EXCEPT !.when = @ + 1, !.id = n, !.wk = k]]
               /\ go(Undo(t) \o <<Ins(x.when + 1, n, k)>>, ready(x.when))
          ELSE /\ tm' = [tm EXCEPT ![t] = [@ EXCEPT !.when = NO, !.id = 0, !.wk = 0]]
               /\ go(Undo(t), ready(x.when))
     ELSE IF x.when = NO
          THEN /\ tm' = [tm EXCEPT ![t] = IF x.wk = k THEN @ ELSE [@ EXCEPT !.id = 0, !.wk = k]]
               /\ go(<<>>, pend)
     ELSE IF x.wk = 0 \/ x.wk # k
          THEN /\ tm' = [tm EXCEPT ![t] = [@ EXCEPT !.id = n, !.wk = k]]
               /\ go(IF BUG = "keep-first-waker" /\ x.wk # 0 THEN <<>>
                     ELSE (IF BUG = "leave-old-waker" THEN <<>> ELSE Undo(t)) \o <<Ins(x.when, n, k)>>, pend)
          ELSE go(<<>>, pend) /\ UNCHANGED tm
  /\ UNCHANGED <<clk, q, map, tlock, note, r>>

SetCall(t) ==
  /\ tm[t].st = "live" /\ c[t].pc = "rest" /\ May(t) /\ idled' = FALSE
  /\ E([k |-> "tsc", tm |-> t, t |-> t])
  /\ c' = [c EXCEPT ![t].pc = "set", ![t].n = Count(t)]
  /\ UNCHANGED <<clk, tm, q, map, tlock, note, r>>
Set(t) ==
  LET x == tm[t]  n == NewId IN
  /\ c[t].pc = "set" /\ Same /\ idled' = FALSE
  /\ \E v \in Vals, p \in BOOLEAN :
       /\ p => PER /\ v # NO
       /\ LET ins == v # NO /\ x.wk # 0 /\ BUG # "set-no-insert"
          IN /\ tm' = [tm EXCEPT ![t] = [@ EXCEPT !.when = v, !.per = p, !.id = IF ins THEN n ELSE 0]]
             /\ c' = [c EXCEPT ![t] = [@ EXCEPT !.pc = "do",
                        !.todo = (IF BUG = "set-no-clear" THEN <<>> ELSE Undo(t)) \o
                                 (IF ins THEN <<Ins(v, n, x.wk)>> ELSE <<>>),
                        !.ev = [k |-> "tsr", tm |-> t, t |-> t] @@ (IF p THEN LgP(v) ELSE Lg(v))]]
  /\ UNCHANGED <<clk, q, map, tlock, note, r>>

DropCall(t) ==
  /\ tm[t].st = "live" /\ c[t].pc = "rest" /\ May(t) /\ idled' = FALSE
  /\ E([k |-> "td", tm |-> t, t |-> t])
  /\ tm' = [tm EXCEPT ![t] = [@ EXCEPT !.st = "gone", !.wk = 0, !.id = 0, !.when = NO]]
  /\ c' = [c EXCEPT ![t] = [@ EXCEPT !.pc = "do", !.ev = [k |-> "tdr", tm |-> t, t |-> t],
             !.todo = IF BUG = "drop-no-remove" THEN <<>> ELSE Undo(t)]]
  /\ UNCHANGED <<clk, q, map, tlock, note, r>>

Apply(mp, o) == IF o.o = "ins" THEN mp \cup {[when |-> o.when, id |-> o.id, wk |-> o.wk]}
                ELSE {x \in mp : ~(x.when = o.when /\ x.id = o.id)}

RECURSIVE ApplyAll(_, _)
ApplyAll(mp, os) == IF os = <<>> THEN mp ELSE ApplyAll(Apply(mp, os[1]), Tail(os))

\* insert_timer / remove_timer: push, and drain the queue first if it is full
Push(t) ==
  /\ c[t].pc = "do" /\ c[t].todo # <<>> /\ idled' = FALSE
  /\ LET o == c[t].todo[1] IN
     IF Len(q) < CAP
     THEN /\ q' = Append(q, o)
          /\ c' = [c EXCEPT ![t] = [@ EXCEPT !.todo = Tail(@), !.pc = IF o.o = "ins" THEN "note" ELSE "do"]]
          /\ UNCHANGED tlock
     ELSE IF BUG = "full-drops" THEN c' = [c EXCEPT ![t].todo = Tail(@)] /\ UNCHANGED <<q, tlock>>
     ELSE /\ tlock = 0 /\ tlock' = t
          /\ c' = [c EXCEPT ![t].pc = "drain"] /\ UNCHANGED q
  /\ Same /\ UNCHANGED <<clk, tm, map, note, r>>
Drain(t) ==
  /\ c[t].pc = "drain" /\ idled' = FALSE
  /\ map' = ApplyAll(map, IF BUG = "drain-loses" THEN SelectSeq(q, LAMBDA o : o.o = "rem") ELSE q)
  /\ q' = <<>> /\ c' = [c EXCEPT ![t].pc = "do"] /\ tlock' = 0
  /\ Same /\ UNCHANGED <<clk, tm, note, r>>
Notify(t) ==
  /\ c[t].pc = "note" /\ idled' = FALSE
  /\ note' = (IF BUG = "no-notify" THEN note ELSE TRUE)
  /\ c' = [c EXCEPT ![t].pc = "do"]
  /\ Same /\ UNCHANGED <<clk, tm, q, map, tlock, r>>
Ret(t) ==
  /\ c[t].pc = "do" /\ c[t].todo = <<>> /\ idled' = FALSE
  /\ E(c[t].ev)
  /\ c' = [c EXCEPT ![t] = [@ EXCEPT !.pc = "rest", !.ev = [k |-> "none"], !.wk = 0]]
  /\ UNCHANGED <<clk, tm, q, map, tlock, note, r>>

\* ---------------------------------------------------------------- the clock
Tick == /\ clk < TMAX /\ clk' = clk + 1 /\ idled' = FALSE
        /\ m' = Canon(m, clk + 1, HL)
        /\ UNCHANGED <<tm, c, q, map, tlock, note, r>>

\* ---------------------------------------------------------------- the reactor
Min(SS) == CHOOSE x \in SS : \A y \in SS : x <= y
RLock == /\ r.pc = "lock" /\ tlock = 0 /\ tlock' = R /\ idled' = FALSE
         /\ r' = [r EXCEPT !.pc = "apply", !.now = clk]
         /\ Same /\ UNCHANGED <<clk, tm, c, q, map, note>>
\* (operations pushed while the queue is being drained may or may not be seen: as if pushed before or after)
RApply ==
  /\ r.pc = "apply" /\ idled' = FALSE
  /\ map' = ApplyAll(map, q) /\ q' = <<>>
  /\ r' = [r EXCEPT !.pc = "split", !.now = IF BUG = "clock-late" THEN NO ELSE @]
  /\ Same /\ UNCHANGED <<clk, tm, c, tlock, note>>
RECURSIVE Wakers(_)
Wakers(X) == IF X = {} THEN <<>>
             ELSE LET x == CHOOSE x \in X : \A y \in X : x.when < y.when \/ (x.when = y.when /\ x.id <= y.id)
                  IN <<x.wk>> \o Wakers(X \ {x})
RSplit ==
  LET rd == {x \in map : x.when <= (IF r.now = NO THEN clk ELSE r.now)}
      left == map \ rd IN
  /\ r.pc = "split" /\ tlock' = 0 /\ map' = left /\ idled' = FALSE
  /\ r' = [r EXCEPT !.wk = @ \o Wakers(rd), !.now = 0,
             !.pc = IF r.pass = 1 THEN "wait" ELSE "wake",
             !.zero = rd # {},
             !.dl = IF rd # {} \/ r.pass = 2 THEN NO ELSE IF left = {} THEN NO ELSE Min({x.when : x \in left})]
  /\ Same /\ UNCHANGED <<clk, tm, c, q, note>>
\* the sleep in the OS
RWait ==
  /\ r.pc = "wait" /\ (r.zero \/ note \/ (r.dl # NO /\ clk >= r.dl)) /\ idled' = FALSE
  /\ note' = FALSE
  /\ r' = IF r.zero THEN [r EXCEPT !.pc = "wake", !.dl = NO, !.zero = FALSE]
          ELSE [r EXCEPT !.pc = "lock", !.pass = 2, !.dl = NO]
  /\ Same /\ UNCHANGED <<clk, tm, c, q, map, tlock>>
RWake ==
  /\ r.pc = "wake" /\ idled' = FALSE
  /\ LET top == [r EXCEPT !.pc = "lock", !.pass = 1, !.zero = FALSE, !.dl = NO, !.wk = <<>>] IN
     IF r.wk = <<>> THEN r' = top /\ Same
     ELSE /\ E([k |-> "wake", wk |-> r.wk[1], t |-> R])
          /\ r' = IF Len(r.wk) = 1 THEN top ELSE [r EXCEPT !.wk = Tail(@)]
  /\ UNCHANGED <<clk, tm, c, q, map, tlock, note>>

RECURSIVE SeqOf(_)
SeqOf(X) == IF X = {} THEN <<>> ELSE LET a == Min(X) IN <<a>> \o SeqOf(X \ {a})
Quiet == /\ r.pc = "wait" /\ ~r.zero /\ ~note /\ ~(r.dl # NO /\ clk >= r.dl)
         /\ \A t \in T : c[t].pc = "rest"
IdleEv ==
  /\ Quiet /\ ~idled /\ idled' = TRUE
  /\ E([k |-> "idle", from |-> clk, live |-> SeqOf(Held \ {0}), regs |-> <<>>, t |-> 0])
  /\ UNCHANGED <<clk, tm, c, q, map, tlock, note, r>>

RNext == RLock \/ RApply \/ RSplit \/ RWait \/ RWake
CNext(t) == Poll(t) \/ Set(t) \/ Push(t) \/ Drain(t) \/ Notify(t) \/ Ret(t)
Next == Tick \/ RNext \/ IdleEv \/ \E t \in T : TNew(t) \/ PollCall(t) \/ SetCall(t) \/ DropCall(t) \/ CNext(t)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(RNext) /\ \A t \in T : WF_vars(CNext(t))

Contract == m.bad = {}
\* The reactor comes to rest whenever the users do and the clock stands still.
===============================================================================
