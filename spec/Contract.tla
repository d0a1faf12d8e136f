------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* The observable contract of async-io, as a deterministic monitor.        *)
(*                                                                         *)
(* The state `m` is what a client can know from the events at the library's *)
(* boundary: calls and returns of its API, calls of wakers, and the        *)
(* system calls it makes (registration, interest changes, waits, closes).  *)
(* Step(m, e, x) is the transition taken when event e occurs as the x-th    *)
(* event.  m.bad collects <<property, rule, x>> for every rule that an      *)
(* event broke; Holds(p) is the invariant of property p.                   *)
(*                                                                         *)
(* The same monitor judges (a) the design models (IoDesign, TimerDesign,   *)
(* DriverDesign, ...), whose actions emit these events, over all their     *)
(* interleavings; (b) traces recorded from the real code (Trace.tla).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

FAR  == 2000000000      \* an instant that no run reaches, yet representable
NEVER == FAR + 1        \* no instant at all
BIG  == FAR + 2

RD == 1  WR == 2        \* directions are 0/1 in events, 1/2 as indices here

\* ------------------------------------------------------------------ state
NoHandle == [st |-> "none", fd |-> 0, g |-> 0, rdy |-> <<0, 0>>, dropped |-> 0,
             gp |-> << {}, {} >>]
NoSlot == [st |-> "none", h |-> 0, d |-> 0, f |-> 1, wk |-> 0, pc |-> 0, fp |-> 0,
           th |-> 0, flt |-> 0, ex |-> FALSE]
NoTimer == [st |-> "none", lo |-> 0, hi |-> 0, per |-> NEVER, wk |-> 0, pend |-> FALSE,
            pc |-> 0, pn |-> 0, set |-> 0, one |-> FALSE, fired |-> FALSE, sn |-> 0, arm |-> FALSE]
NoBo == [st |-> "none", th |-> 0, polls |-> 0, wakes |-> 0, inpoll |-> FALSE, rdy |-> FALSE,
         bp |-> 0, open |-> {}, pend |-> FALSE, late |-> 0]
NoOp == [st |-> "none", h |-> 0, d |-> 0, f |-> 1, wk |-> 0, busy |-> FALSE, th |-> 0,
         cnt |-> 0, flt |-> 0, atts |-> <<>>, polled |-> FALSE, pc |-> 0, fp |-> 0]
NoNet == [st |-> "none", op |-> "", h |-> 0, d |-> 1, f |-> 1, wk |-> 0, pc |-> 0, fp |-> 0, busy |-> FALSE,
          runs |-> <<>>, ahead |-> 0, cap |-> 0, to |-> 0, cls |-> "", rdy |-> 0, g |-> 0,
          natt |-> 0, nlr |-> 0, nle |-> 0, ninj |-> 0]
NoChan == [cls |-> "", peer |-> 0, q |-> <<>>, dq |-> <<>>, shut |-> FALSE, gone |-> FALSE, rst |-> FALSE,
           acc |-> {}, nacc |-> 0, cli |-> {}, ncli |-> 0, canc |-> 0]
NoWk == [o |-> "none", i |-> 0, last |-> 0, nb |-> 0, rel |-> BIG, fl |-> FALSE, gone |-> 0]

\* hd: the header of a run, with the numbers of handles, slots, timers, calls, ops, wakers, threads
Init0(hd) ==
  [ bad |-> {},
    bo |-> hd.bo = 1, mis |-> hd.bad = 1, flt |-> hd.flt = 1, first |-> hd.fam = "init",
    pp |-> {hd.pp[i] : i \in 1..Len(hd.pp)},
    h |-> [i \in 1..hd.nh |-> NoHandle],
    s |-> [i \in 1..hd.ns |-> NoSlot],
    t |-> [i \in 1..hd.nt |-> NoTimer],
    b |-> [i \in 1..hd.nb |-> NoBo],
    o |-> [i \in 1..hd.no |-> NoOp],
    w |-> [i \in 1..hd.nw |-> NoWk],
    q |-> [i \in 1..hd.nq |-> NoNet],
    c |-> [i \in 1..(IF hd.nq = 0 THEN 0 ELSE hd.nh) |-> NoChan], anygone |-> FALSE,
    reg |-> <<>>,                       \* registrations: [fd, key, on, lc]
    lc |-> [i \in 0..hd.nth |-> 0],     \* last collect of each thread
    libth |-> 0, pollers |-> 0,
    spin |-> 0, spw |-> {} ]             \* fruitless rounds in a row; wakers called during them

Flag(m, p, r, x) == IF Cardinality(m.bad) > 12 THEN m ELSE [m EXCEPT !.bad = @ \cup {<<p, r, x>>}]
FlagIf(c, m, p, r, x) == IF c THEN Flag(m, p, r, x) ELSE m
RECURSIVE FlagAll(_, _, _, _)
FlagAll(m, ps, r, x) ==
  IF ps = {} THEN m
  ELSE LET p == CHOOSE q \in ps : TRUE IN FlagAll(Flag(m, p, r, x), ps \ {p}, r, x)

Holds(m, p) == \A v \in m.bad : v[1] # p

\* A due wake-up that did not happen counts against the property itself and against the
\* property about the circumstances of the run.
Miss(m, p) ==
  IF m.flt THEN {"C16"}
  ELSE {p} \cup (IF m.bo THEN {"C11"} ELSE {}) \cup (IF m.mis THEN {"C12"} ELSE {})
           \cup (IF m.first THEN {"C17"} ELSE {})

Woken(m, wk, since) == m.w[wk].last > since

\* ------------------------------------------------------------------ handles (C04, C15)
OnG(m, g) == g >= 1 /\ g <= Len(m.reg) /\ m.reg[g].on
Registered(m) == {g \in 1..Len(m.reg) : m.reg[g].on}

Add(m, e, x) ==
  IF e.ok = 0 THEN m
  ELSE LET m1 == FlagIf(e.g # Len(m.reg) + 1, m, "TOOL", "g", x)
           m2 == FlagIf(\E g \in Registered(m) : m.reg[g].key = e.key, m1, "C04", "key-shared", x)
       IN [m2 EXCEPT !.reg = Append(@, [fd |-> e.fd, key |-> e.key, on |-> TRUE, lc |-> <<0, 0>>])]

Del(m, e, x) ==
  IF e.ok = 1 /\ OnG(m, e.g) THEN [m EXCEPT !.reg[e.g].on = FALSE] ELSE m

Close(m, e, x) == FlagIf(e.g # 0, m, "C04", "closed-while-registered", x)

New(m, e, x) ==
  LET m1 == FlagIf(~OnG(m, e.g), m, "C04", "not-registered", x)
      m2 == FlagIf(e.nb # 1, m1, "C15", "blocking-handle", x)
  IN [m2 EXCEPT !.h[e.h].st = "live", !.h[e.h].fd = e.fd, !.h[e.h].g = e.g]

NewErr(m, e, x) == FlagIf(~m.flt, m, "C04", "construction-failed", x)

\* A second adapter for a registered descriptor must fail and leave the first one alone.
Dup(m, e, x) ==
  FlagIf(m.h[e.h].st = "live" /\ ~OnG(m, m.h[e.h].g), m, "C04", "disturbed-by-failed-construction", x)

Hd(m, e, x) == [m EXCEPT !.h[e.h].st = "dropping", !.h[e.h].dropped = x]
Hdr(m, e, x) ==
  LET m1 == FlagIf(OnG(m, m.h[e.h].g), m, "C04", "still-registered-after-drop", x)
  IN [m1 EXCEPT !.h[e.h].st = "gone"]
Into(m, e, x) ==
  LET m1 == FlagIf(OnG(m, m.h[e.h].g) \/ e.reg # 0, m, "C04", "still-registered-after-unwrap", x)
      m2 == FlagIf(e.same # 1 \/ e.open # 1, m1, "C04", "unwrapped-handle", x)
  IN [m2 EXCEPT !.h[e.h].st = "gone"]

Rdy(m, e, x) == [m EXCEPT !.h[e.h].rdy = <<e.r, e.w>>]

\* ------------------------------------------------------------------ event collection
RECURSIVE Mark(_, _, _, _)
Mark(reg, evs, i, x) ==
  IF i > Len(evs) THEN reg
  ELSE LET v == evs[i] IN
    IF v.g >= 1 /\ v.g <= Len(reg)
    THEN Mark([reg EXCEPT ![v.g].lc = << IF v.r = 1 THEN x ELSE @[1], IF v.w = 1 THEN x ELSE @[2] >>],
              evs, i + 1, x)
    ELSE Mark(reg, evs, i + 1, x)
SPINS == 60             \* more rounds in a row than any backlog explains
Collect(m, e, x) ==
  LET m1 == FlagIf(m.spin = SPINS, m, "C18", "polls-without-end", x)
  IN [m1 EXCEPT !.reg = Mark(@, e.evs, 1, x), !.lc[e.t] = x, !.spin = @ + 1]

\* (C18) Anything but the polling itself ends a row of fruitless rounds, and so does the first wake of a waker.
Streak(m, e) ==
  IF e.k \in {"collect", "wenter", "mod"} \/ (m.spin = 0 /\ m.spw = {} /\ e.k # "wake") THEN m
  ELSE IF e.k = "wake"
       THEN IF e.wk \in m.spw THEN m ELSE [m EXCEPT !.spin = 0, !.spw = @ \cup {e.wk}]
       ELSE [m EXCEPT !.spin = 0, !.spw = {}]

\* ------------------------------------------------------------------ waits (C01, C02, C03, C16)
SlotDecl(m, e, x) ==
  [m EXCEPT !.s[e.s] = [NoSlot EXCEPT !.st = "idle", !.h = e.h, !.d = e.d + 1, !.f = e.f]]

Own(m, wk, kind, i) ==
  IF m.w[wk].o = "none" THEN [m EXCEPT !.w[wk].o = kind, !.w[wk].i = i] ELSE m

Pc(m, e, x) ==
  LET m1 == Own(m, e.wk, "s", e.s) IN
  [m1 EXCEPT !.s[e.s].st = "call", !.s[e.s].wk = e.wk, !.s[e.s].pc = x,
             !.s[e.s].fp = IF @ = 0 THEN x ELSE @, !.s[e.s].th = e.t, !.s[e.s].flt = 0,
             !.s[e.s].ex = FALSE]

\* An interest change failed inside a poll: that poll has to say so.
Mod(m, e, x) ==
  IF e.ok = 1 THEN m
  ELSE [m EXCEPT !.s = [i \in DOMAIN @ |->
          IF @[i].st = "call" /\ @[i].th = e.t THEN [@[i] EXCEPT !.flt = 1] ELSE @[i]],
                 !.o = [i \in DOMAIN @ |->
          IF @[i].busy /\ @[i].th = e.t THEN [@[i] EXCEPT !.flt = 1] ELSE @[i]]]

LastCollect(m, h, d) ==
  LET g == m.h[h].g IN IF g >= 1 /\ g <= Len(m.reg) THEN m.reg[g].lc[d] ELSE 0

\* The polls of poll_readable / poll_writable of one handle and direction form one wait.
GroupOpen(m, s) ==
  \E i \in DOMAIN m.s : /\ i # s /\ m.s[i].f = 0 /\ m.s[i].st = "call"
                        /\ m.s[i].h = m.s[s].h /\ m.s[i].d = m.s[s].d
                        /\ LastCollect(m, m.s[s].h, m.s[s].d) > m.s[i].pc
GroupOpenOp(m, s) ==
  \E i \in DOMAIN m.o : /\ m.o[i].f = 0 /\ m.o[i].busy
                        /\ m.o[i].h = m.s[s].h /\ m.o[i].d = m.s[s].d
                        /\ LastCollect(m, m.s[s].h, m.s[s].d) > m.o[i].pc

GroupFresh(m, i) ==
  LET s == m.s[i] IN
  \/ \E p \in m.h[s.h].gp[s.d] : LastCollect(m, s.h, s.d) > p[1]
  \/ GroupOpen(m, i) \/ GroupOpenOp(m, i)

\* The return of a poll ends the waits of the polls before it; a call under way at that moment may
\* have ended them before (ex: an event was there at some moment of the call).
PrReady(m, e, x) ==
  LET s == m.s[e.s]
      fresh == IF s.f = 1 THEN LastCollect(m, s.h, s.d) > s.fp ELSE s.ex \/ GroupFresh(m, e.s)
      m1 == FlagIf(~fresh, m, "C02", "stale-readiness", x)
      m2 == FlagIf(s.flt = 1, m1, "C16", "error-swallowed", x)
      m3 == IF s.f = 1 THEN m2
            ELSE [m2 EXCEPT !.s = [i \in DOMAIN @ |->
                    IF @[i].f = 0 /\ i # e.s /\ @[i].st = "call" /\ @[i].h = s.h /\ @[i].d = s.d /\ GroupFresh(m, i)
                    THEN [@[i] EXCEPT !.ex = TRUE] ELSE @[i]]]
  IN [m3 EXCEPT !.s[e.s].st = IF s.f = 1 THEN "done" ELSE "idle",
                !.h[s.h].gp[s.d] = IF s.f = 1 THEN @ ELSE {p \in @ : p[2] > s.pc}]

PrPending(m, e, x) ==
  LET s == m.s[e.s]
      m1 == FlagIf(s.flt = 1, m, "C16", "error-swallowed", x)
  IN [m1 EXCEPT !.s[e.s].st = "pend",
                !.h[s.h].gp[s.d] = IF s.f = 1 THEN @ ELSE @ \cup {<<s.pc, x>>}]

PrErr(m, e, x) ==
  LET m1 == FlagIf(m.s[e.s].flt = 0, m, IF m.flt THEN "C16" ELSE "C01", "error-without-cause", x)
  IN [m1 EXCEPT !.s[e.s].st = "idle"]

Pr(m, e, x) ==
  CASE e.r = "ready"   -> PrReady(m, e, x)
    [] e.r = "pending" -> PrPending(m, e, x)
    [] OTHER           -> PrErr(m, e, x)

DropOwned(m, kind, i, x) ==
  [m EXCEPT !.w = [k \in DOMAIN @ |->
     IF @[k].o = kind /\ @[k].i = i /\ @[k].gone = 0 THEN [@[k] EXCEPT !.gone = x] ELSE @[k]]]

Sd(m, e, x)  == [m EXCEPT !.s[e.s].st = "dropping"]
Sdr(m, e, x) == DropOwned([m EXCEPT !.s[e.s].st = "dropped"], "s", e.s, x)

\* ------------------------------------------------------------------ waking
Wake(m, e, x) ==
  LET k == m.w[e.wk]
      m1 == FlagIf(k.o \in {"s", "o", "q"} /\ k.gone # 0 /\ m.lc[e.t] > k.gone, m, "C03", "dropped-wait-woken", x)
      m2 == FlagIf(k.o = "t" /\ e.n < k.nb, m1, "C07", "woken-for-old-deadline", x)
      \* an operation is woken for its own direction only
      mine == IF k.o = "q" THEN (m.q[k.i].f = 1 /\ m.q[k.i].st = "pend" /\ m.q[k.i].h # 0 /\ m.q[k.i].wk = e.wk)
              ELSE IF k.o = "o" THEN (m.o[k.i].f = 1 /\ m.o[k.i].st = "pend" /\ m.o[k.i].wk = e.wk) ELSE FALSE
      m3 == IF mine
            THEN LET hh == IF k.o = "q" THEN m.q[k.i].h ELSE m.o[k.i].h
                     dd == IF k.o = "q" THEN m.q[k.i].d ELSE m.o[k.i].d
                     \* (the events may have been collected just before the poll)
                 IN FlagIf(~m.flt /\ (m.lc[e.t] = 0 \/ LastCollect(m, hh, dd) < m.lc[e.t]), m2, "C13", "woken-for-other-direction", x)
            ELSE m2
  IN [m3 EXCEPT !.w[e.wk].last = x]

\* ------------------------------------------------------------------ timers (C05, C06, C07, C08)
PlusFar(a, d) == IF d >= NEVER THEN NEVER ELSE IF d >= FAR \/ a >= FAR THEN FAR ELSE a + d
Deadline(e) ==       \* [lo, hi] of the deadline set by a call made at e.c that returned at e.n
  CASE e.f = "never" -> <<NEVER, NEVER>>
    [] e.f \in {"after", "interval"} -> <<PlusFar(e.c, e.d), PlusFar(e.n, e.d)>>
    [] OTHER -> <<e.d, e.d>>
Period(e) == IF e.f \in {"interval", "interval_at"} THEN e.p ELSE NEVER

Tnew(m, e, x) ==
  LET dl == Deadline(e) IN
  [m EXCEPT !.t[e.tm] = [NoTimer EXCEPT !.st = "live", !.lo = dl[1], !.hi = dl[2],
                         !.per = Period(e), !.one = e.f \in {"after", "at"}]]

Tpc(m, e, x) ==
  LET m1 == Own(m, e.wk, "t", e.tm) IN
  [m1 EXCEPT !.t[e.tm].st = "call", !.t[e.tm].pc = x, !.t[e.tm].pn = e.n, !.t[e.tm].sn = m.t[e.tm].wk,
             !.t[e.tm].wk = e.wk, !.w[e.wk].nb = 0, !.w[e.wk].rel = BIG]

\* The waker `wk` no longer stands for the deadline [lo, hi]: unless that deadline had come
\* before the call returned at time n, it must not be woken before `until`.
Supersede(m, wk, lo, hi, n, until, rel) ==
  IF wk = 0 THEN m
  ELSE IF n < lo
       THEN [m EXCEPT !.w[wk].nb = IF m.w[wk].fl THEN @ ELSE until,
                      !.w[wk].rel = IF rel THEN (IF hi >= FAR THEN BIG ELSE hi) ELSE BIG]
       ELSE [m EXCEPT !.w[wk].fl = TRUE, !.w[wk].nb = 0, 
                      !.w[wk].rel = IF rel THEN (IF hi >= FAR THEN BIG ELSE hi) ELSE BIG]

TprReady(m, e, x) ==
  LET t == m.t[e.tm]
      m1 == FlagIf(t.lo >= FAR, m, "C08", "unreachable-deadline-fired", x)
      m2 == FlagIf(e.v < t.lo \/ e.v > t.hi \/ e.vn # 0, m1,
                   IF t.fired /\ t.per < NEVER THEN "C08" ELSE "C05", "wrong-value", x)
      m3 == FlagIf(e.v > e.n, m2, "C05", "early", x)
      m4 == FlagIf(t.one /\ t.fired, m3, "C08", "one-shot-fired-again", x)
      nx == IF t.per >= NEVER THEN NEVER ELSE PlusFar(e.v, t.per)
      \* the waker of the previous poll is done with, as the deadline has come
      m5 == IF t.sn # 0 THEN [m4 EXCEPT !.w[t.sn].fl = TRUE, !.w[t.sn].nb = 0] ELSE m4
  IN [m5 EXCEPT !.t[e.tm].st = "live", !.t[e.tm].pend = FALSE, !.t[e.tm].fired = TRUE,
                !.t[e.tm].lo = nx, !.t[e.tm].hi = nx, !.t[e.tm].arm = nx < NEVER]

TprPending(m, e, x) ==
  LET t == m.t[e.tm]
      m1 == FlagIf(t.hi <= t.pn, m, "C05", "late", x)
      m2 == IF t.sn # 0 /\ t.sn # t.wk /\ t.arm
            THEN Supersede(m1, t.sn, t.lo, t.hi, e.n, BIG, TRUE) ELSE m1
  IN [m2 EXCEPT !.t[e.tm].st = "live", !.t[e.tm].pend = TRUE, !.t[e.tm].arm = TRUE]

Tpr(m, e, x) ==
  CASE e.r = "ready" -> TprReady(m, e, x)
    [] e.r = "pending" -> TprPending(m, e, x)
    [] OTHER -> Flag(m, "C08", "stream-ended", x)

\* While the deadline is being changed, the waker may already be due for the new one.
Tsc(m, e, x) ==
  LET m1 == [m EXCEPT !.t[e.tm].set = x] IN
  IF m.t[e.tm].wk = 0 THEN m1 ELSE [m1 EXCEPT !.w[m.t[e.tm].wk].nb = 0]

Tsr(m, e, x) ==
  LET t == m.t[e.tm]
      dl == Deadline(e)
      never == e.f = "never"        \* the timer object is replaced by a new one
      \* time from which a wake for the old deadline would be a mistake
      m1 == IF t.arm THEN Supersede(m, t.wk, t.lo, t.hi, e.n, IF never THEN BIG ELSE dl[1], never) ELSE m
  IN [m1 EXCEPT !.t[e.tm].lo = dl[1], !.t[e.tm].hi = dl[2], !.t[e.tm].per = Period(e),
                !.t[e.tm].one = e.f \in {"after", "at"}, !.t[e.tm].fired = FALSE,
                !.t[e.tm].pend = IF never THEN FALSE ELSE @,
                !.t[e.tm].arm = IF never THEN FALSE ELSE @,
                !.t[e.tm].wk = IF never THEN 0 ELSE @]

Td(m, e, x) == [m EXCEPT !.t[e.tm].st = "dropping"]
Tdr(m, e, x) ==
  LET t == m.t[e.tm]
      m1 == IF t.arm THEN Supersede(m, t.wk, t.lo, t.hi, e.n, BIG, TRUE) ELSE m
  IN [m1 EXCEPT !.t[e.tm].st = "dropped", !.t[e.tm].pend = FALSE]

Wf(m, e, x) == FlagIf((e.r = 1) # (m.t[e.tm].lo < NEVER), m, "C08", "will-fire", x)

\* ------------------------------------------------------------------ block_on (C09, C10)
Bc(m, e, x) ==
  [m EXCEPT !.b[e.b].st = "active", !.b[e.b].th = e.t]

Bp(m, e, x) ==
  LET b == m.b[e.b]
      late == {c \in DOMAIN m.b : c # e.b /\ m.b[c].st = "returned" /\ m.b[c].th = b.th}
      RECURSIVE Sum(_)
      Sum(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN m.b[c].late + Sum(S \ {c})
      m1 == FlagIf(b.polls + 1 > 1 + b.wakes + Sum(late), m, "C10", "poll-without-wake", x)
      m2 == FlagIf(b.rdy, m1, "C09", "polled-after-completion", x)
  IN [m2 EXCEPT !.b[e.b].polls = @ + 1, !.b[e.b].inpoll = TRUE, !.b[e.b].bp = x,
                !.b[e.b].pend = FALSE]

\* Wakes that have not finished when the future completes may be seen by a later call.
Bpr(m, e, x) ==
  [m EXCEPT !.b[e.b].inpoll = FALSE, !.b[e.b].rdy = (e.r = 1),
            !.b[e.b].late = IF e.r = 1 THEN Cardinality(m.b[e.b].open) ELSE 0]

Br(m, e, x) ==
  LET b == m.b[e.b]
      m1 == FlagIf(~b.rdy \/ e.v # e.b, m, "C09", "returned-without-output", x)
  IN [m1 EXCEPT !.b[e.b].st = "returned"]

Wbs(m, e, x) ==
  IF m.b[e.b].rdy
  THEN [m EXCEPT !.b[e.b].late = @ + 1]
  ELSE [m EXCEPT !.b[e.b].wakes = @ + 1, !.b[e.b].open = @ \cup {<<e.t, x>>}]
Wbe(m, e, x) ==
  LET mine == {o \in m.b[e.b].open : o[1] = e.t} IN
  IF mine = {} THEN m
  ELSE LET o == CHOOSE o \in mine : \A q \in mine : q[2] <= o[2] IN
       [m EXCEPT !.b[e.b].open = @ \ {o},
                 !.b[e.b].pend = IF o[2] > m.b[e.b].bp THEN TRUE ELSE @]

\* ------------------------------------------------------------------ operations (C13)
Onew(m, e, x) ==
  [m EXCEPT !.o[e.o] = [NoOp EXCEPT !.st = "idle", !.h = e.h, !.d = e.d + 1, !.f = e.f]]
Opc(m, e, x) ==
  LET m1 == Own(m, e.wk, "o", e.o) IN
  [m1 EXCEPT !.o[e.o].busy = TRUE, !.o[e.o].wk = e.wk, !.o[e.o].pc = x, !.o[e.o].fp = IF @ = 0 THEN x ELSE @, !.o[e.o].th = e.t,
             !.o[e.o].flt = 0]
Att(m, e, x) ==
  LET o == m.o[e.o]
      done == Len(o.atts) > 0 /\ o.atts[Len(o.atts)] # -1
      m1 == FlagIf(~o.busy \/ o.st \in {"dropped", "done"}, m, "C13", "attempt-outside-a-poll", x)
      m2 == FlagIf(done, m1, "C13", "attempt-after-a-result", x)
  IN [m2 EXCEPT !.o[e.o].atts = Append(@, e.r), !.o[e.o].cnt = @ + 1]
Opr(m, e, x) ==
  LET o == m.o[e.o]
      n == Len(o.atts)
      last == IF n = 0 THEN -100 ELSE o.atts[n]
      m1 == FlagIf(n = 0, m, "C13", "not-attempted-at-once", x)
      m2 == IF e.p = 1 THEN FlagIf(n > 0 /\ last # -1, m1, "C13", "result-withheld", x)
            ELSE FlagIf(n > 0 /\ (last = -1 \/ last # e.r), m1, "C13", "result-changed", x)
      \* A failed change of the interest takes the place of the result.
      m3 == IF o.flt = 0 THEN m2
            ELSE IF e.p = 0 /\ last = -1 /\ e.r = -9 THEN m
            ELSE IF e.p = 1 THEN FlagIf(last = -1, m2, "C16", "error-swallowed", x)
            ELSE m2
      gp == IF o.f = 0 /\ e.p = 1 THEN {<<o.pc, x>>} ELSE {}
  IN [m3 EXCEPT !.o[e.o].busy = FALSE, !.o[e.o].st = IF e.p = 1 THEN "pend" ELSE "done",
                !.h[o.h].gp[o.d] = @ \cup gp]
Od(m, e, x)  == [m EXCEPT !.o[e.o].st = "dropping"]
Odr(m, e, x) ==      \* only futures wait on their own account (a poll method leaves its waker behind)
  LET m1 == [m EXCEPT !.o[e.o].st = "dropped"] IN
  IF m.o[e.o].f = 1 THEN DropOwned(m1, "o", e.o, x) ELSE m1

\* ------------------------------------------------------------------ data (C14)
\* Bytes are runs <<value, length>>.  m.c[h] is what is on its way to endpoint h.
RECURSIVE RLen(_)
RLen(rs) == IF rs = <<>> THEN 0 ELSE rs[1][2] + RLen(Tail(rs))
RECURSIVE DropN(_, _)
DropN(rs, n) ==
  IF n = 0 \/ rs = <<>> THEN rs
  ELSE IF rs[1][2] <= n THEN DropN(Tail(rs), n - rs[1][2])
  ELSE << <<rs[1][1], rs[1][2] - n>> >> \o Tail(rs)
RECURSIVE TakeN(_, _)
TakeN(rs, n) ==
  IF n = 0 \/ rs = <<>> THEN <<>>
  ELSE IF rs[1][2] <= n THEN << rs[1] >> \o TakeN(Tail(rs), n - rs[1][2])
  ELSE << <<rs[1][1], n>> >>
\* rs is what comes first in q
RECURSIVE IsPrefix(_, _)
IsPrefix(rs, q) ==
  IF rs = <<>> THEN TRUE
  ELSE IF rs[1][2] = 0 THEN IsPrefix(Tail(rs), q)
  ELSE IF q = <<>> THEN FALSE
  ELSE IF q[1][2] = 0 THEN IsPrefix(rs, Tail(q))
  ELSE IF q[1][1] # rs[1][1] THEN FALSE
  ELSE LET k == IF q[1][2] < rs[1][2] THEN q[1][2] ELSE rs[1][2]
       IN IsPrefix(DropN(rs, k), DropN(q, k))
MinOf(a, b) == IF a < b THEN a ELSE b

EpDecl(m, e, x) == [m EXCEPT !.c[e.h] = [NoChan EXCEPT !.cls = e.c, !.peer = e.peer,
                                                         !.dq = [i \in DOMAIN m.c |-> <<>>]]]
Gone(m, h) == h # 0 /\ m.c[h].gone
Epx(m, e, x) ==
  LET p == m.c[e.h].peer
      m1 == [m EXCEPT !.c[e.h].gone = TRUE, !.anygone = TRUE]
      \* closing with unread data resets the connection, and what was under way is lost
      cut == m.c[e.h].q # <<>> \/ \E i \in DOMAIN m.q : m.q[i].op = "wr" /\ m.q[i].busy /\ m.q[i].to = e.h
  IN IF p = 0 THEN m1 ELSE [m1 EXCEPT !.c[p].shut = TRUE, !.c[p].rst = @ \/ cut]
Shut(m, e, x) == IF e.h = 0 THEN m ELSE [m EXCEPT !.c[e.h].shut = TRUE]
Hcx(m, e, x) == FlagIf(e.cx # 1, m, "C15", "not-close-on-exec", x)

Nnew(m, e, x) ==
  [m EXCEPT \* what an earlier operation of that number left behind is not its own
            !.w = [k \in DOMAIN @ |->
                     IF @[k].o = "q" /\ @[k].i = e.q /\ @[k].gone = 0 THEN [@[k] EXCEPT !.o = "old"] ELSE @[k]],
            !.q[e.q] = [NoNet EXCEPT !.st = "idle", !.h = e.h, !.d = e.d + 1, !.f = e.f, !.op = e.op,
                        !.runs = e.runs, !.cap = e.cap, !.to = e.to, !.cls = e.cls]]
Npc(m, e, x) ==
  LET m0 == Own(m, e.wk, "q", e.q)
      q == m.q[e.q]
      \* so does writing to an endpoint that is gone
      m1 == IF q.op = "wr" /\ q.h # 0 /\ q.to # 0 /\ m.c[q.to].gone THEN [m0 EXCEPT !.c[q.h].rst = TRUE] ELSE m0
  IN
  [m1 EXCEPT !.q[e.q].busy = TRUE, !.q[e.q].wk = e.wk, !.q[e.q].pc = x,
             !.q[e.q].fp = IF @ = 0 THEN x ELSE @, !.q[e.q].ahead = 0, !.q[e.q].rdy = 0]
\* One system call of a socket operation; inj: it was made to fail.
Natt(m, e, x) ==
  LET q == m.q[e.q]
      done == q.natt > 0 /\ ~(q.nlr = -1 /\ q.nle = 11) /\ q.cls # "inc"
              /\ ~(q.op = "ac" /\ q.nle = 4)      \* the standard library repeats an interrupted accept
      m1 == FlagIf(~q.busy, m, "C13", "attempt-outside-a-poll", x)
      m2 == FlagIf(done, m1, "C13", "attempt-after-a-result", x)
  IN [m2 EXCEPT !.q[e.q].natt = @ + 1, !.q[e.q].nlr = e.r, !.q[e.q].nle = e.e, !.q[e.q].ninj = e.inj]
\* The result of the operation is that of its last attempt.
Tries(m, e, x) ==
  LET q == m.q[e.q]
      blocked == q.nlr = -1 /\ q.nle = 11
      same == IF q.nlr = -1 THEN e.r = -1 /\ e.e = q.nle
              ELSE e.r = IF q.op = "ac" THEN 0 ELSE q.nlr
  IN IF q.cls = "inc" \/ q.op \notin {"rd", "pk", "wr", "rv", "pv", "sn", "ac"} THEN m
     ELSE IF q.natt = 0 THEN Flag(m, "C13", "not-attempted-at-once", x)
     ELSE IF e.p = 1 THEN FlagIf(~blocked, m, "C13", "result-withheld", x)
     ELSE FlagIf(blocked \/ ~same, m, "C13", "result-changed", x)
Nrdy(m, e, x) == [m EXCEPT !.q[e.q].rdy = e.w, !.q[e.q].g = e.g]

\* the write under way towards endpoint h, or 0
Writer(m, h) ==
  LET S == {i \in DOMAIN m.q : m.q[i].op = "wr" /\ m.q[i].busy /\ m.q[i].to = h}
  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Offered(m, i) == IF i = 0 THEN <<>> ELSE DropN(m.q[i].runs, m.q[i].ahead)

\* What may go wrong with the connection itself
Excused(m, q) == q.h # 0 /\ (Gone(m, m.c[q.h].peer) \/ Gone(m, q.h) \/ m.c[q.h].peer = 0)

NErr(m, q, e, x) ==
  IF q.op = "fl" /\ ~Excused(m, q) THEN Flag(m, "C14", "error-on-open-connection", x)
  ELSE IF q.op \in {"rd", "pk"} THEN FlagIf(~Excused(m, q), m, "C14", "error-on-open-connection", x)
  ELSE IF q.op = "wr" THEN
       LET m1 == FlagIf(~Excused(m, q) /\ ~m.c[q.to].shut, m, "C14", "error-on-open-connection", x)
       IN FlagIf(q.ahead > 0, m1, "C14", "data-of-a-failed-write", x)
  ELSE IF q.op \in {"rv", "pv", "sn"} THEN
       LET m1 == FlagIf(~m.anygone, m, "C14", "error-on-datagram", x)
       IN FlagIf(q.op = "sn" /\ q.ahead > 0, m1, "C14", "data-of-a-failed-write", x)
  ELSE m

NRead(m, i, e, x) ==
  LET q == m.q[i]
      c == m.c[q.h]
      w == Writer(m, q.h)
      off == Offered(m, w)
      n == e.r
      lq == RLen(c.q)
      m1 == FlagIf(n > q.cap, m, "C14", "more-than-asked-for", x)
  IN IF n = 0
     THEN FlagIf(q.cap > 0 /\ ~c.rst /\ (~c.shut \/ lq > 0 \/ (w # 0 /\ RLen(off) > 0 /\ m.q[w].ahead > 0)),
                 m1, "C14", "end-of-stream-too-early", x)
     ELSE LET m2 == FlagIf(~IsPrefix(e.runs, c.q \o off), m1, "C14", "wrong-data", x)
          IN IF q.op = "pk" THEN m2
             ELSE IF n <= lq THEN [m2 EXCEPT !.c[q.h].q = DropN(@, n)]
             ELSE IF w = 0 THEN [m2 EXCEPT !.c[q.h].q = <<>>]
             ELSE [m2 EXCEPT !.c[q.h].q = <<>>, !.q[w].ahead = @ + (n - lq)]

NWrite(m, i, e, x) ==
  LET q == m.q[i]
      tot == RLen(q.runs)
      m1 == FlagIf(e.r > tot \/ (e.r = 0 /\ tot > 0), m, "C14", "wrong-count", x)
      m2 == FlagIf(q.ahead > e.r, m1, "C14", "more-read-than-written", x)
      m3 == FlagIf(m.c[q.h].cls = "s" /\ Gone(m, q.h), m2, "C14", "write-after-close", x)
  IN IF q.ahead > e.r THEN m3
     ELSE [m3 EXCEPT !.c[q.to].q = @ \o TakeN(DropN(q.runs, q.ahead), e.r - q.ahead)]

\* datagrams: one queue per sender
Heads(m, h) == {s \in DOMAIN m.c[h].dq : m.c[h].dq[s] # <<>>}
InFlight(m, h) == {i \in DOMAIN m.q : m.q[i].op = "sn" /\ m.q[i].busy /\ m.q[i].to = h /\ m.q[i].ahead = 0}
Matches(msg, q, e) == e.r = MinOf(q.cap, RLen(msg)) /\ IsPrefix(e.runs, msg)
NRecv(m, i, e, x) ==
  LET q == m.q[i]
      S == {s \in Heads(m, q.h) : (e.from = -1 \/ e.from = s) /\ Matches(m.c[q.h].dq[s][1], q, e)}
      F == {j \in InFlight(m, q.h) : /\ (e.from = -1 \/ e.from = m.q[j].h)
                                     /\ m.c[q.h].dq[m.q[j].h] = <<>> /\ Matches(m.q[j].runs, q, e)}
  IN IF S = {} /\ F = {} THEN Flag(m, "C14", "wrong-datagram", x)
     ELSE IF q.op = "pv" THEN m
     ELSE IF S # {} THEN LET s == CHOOSE s \in S : TRUE IN [m EXCEPT !.c[q.h].dq[s] = Tail(@)]
     ELSE LET j == CHOOSE j \in F : TRUE IN [m EXCEPT !.q[j].ahead = 1]
NSend(m, i, e, x) ==
  LET q == m.q[i]
      m1 == FlagIf(e.r # RLen(q.runs), m, "C14", "wrong-count", x)
  IN IF q.ahead = 1 THEN m1 ELSE [m1 EXCEPT !.c[q.to].dq[q.h] = Append(@, q.runs)]

\* ------------------------------------------------------------------ connections (C15)
NConnect(m, q, e, x) ==
  LET l == q.to
      lgone == l # 0 /\ m.c[l].gone
      r == IF e.r = -1 THEN "err" ELSE "ok"
  IN IF r = "ok"
     THEN LET m1 == FlagIf(e.est # 1 /\ ~lgone, m, "C15", "connected-without-connection", x)
          IN FlagIf(q.cls \notin {"live", "full"}, m1, "C15", "connected-to-nobody", x)
     ELSE CASE q.cls = "live"    -> FlagIf(~lgone, m, "C15", "connect-failed", x)
            [] q.cls = "refused" -> FlagIf(e.e # 111, m, "C15", "wrong-connect-error", x)
            [] q.cls = "missing" -> FlagIf(e.e # 2, m, "C15", "wrong-connect-error", x)
            [] OTHER -> m

NDone(m, i, e, x) ==
  LET q == m.q[i] IN
  CASE e.r = -1 /\ q.ninj = 1 /\ e.e = q.nle -> m
    [] q.op = "cn" -> NConnect(m, q, e, x)
    [] q.op = "ac" -> FlagIf(e.r = -1, m, "C15", "accept-failed", x)
    [] e.r = -1    -> NErr(m, q, e, x)
    [] q.op \in {"rd", "pk"} -> NRead(m, i, e, x)
    [] q.op = "wr" -> NWrite(m, i, e, x)
    [] q.op \in {"rv", "pv"} -> NRecv(m, i, e, x)
    [] q.op = "sn" -> NSend(m, i, e, x)
    [] OTHER -> m

Npr(m, e, x) ==
  LET m0 == FlagIf(e.p = 0 /\ e.r = -1 /\ e.e = 11, m, "C13", "would-block-surfaced", x)
      mt == Tries(m0, e, x)
      m1 == IF e.p = 1
            THEN FlagIf(m.q[e.q].ahead > 0, mt, "C14", "data-of-a-pending-write", x)
            ELSE NDone(mt, e.q, e, x)
  IN [m1 EXCEPT !.q[e.q].busy = FALSE, !.q[e.q].st = IF e.p = 1 THEN "pend" ELSE "done",
                !.q[e.q].ahead = 0]
Nd(m, e, x)  == [m EXCEPT !.q[e.q].st = "dropping"]
Ndr(m, e, x) ==
  LET m1 == [m EXCEPT !.q[e.q].st = "dropped"]
      m2 == IF m.q[e.q].op = "cn" /\ m.q[e.q].to # 0 THEN [m1 EXCEPT !.c[m.q[e.q].to].canc = @ + 1] ELSE m1
  IN IF m.q[e.q].f = 1 /\ e.inc = 0 THEN DropOwned(m2, "q", e.q, x) ELSE m2

Acc(m, e, x) ==
  LET m1 == FlagIf(e.pa # 1, m, "C15", "wrong-peer-address", x)
      m2 == FlagIf(e.port > 0 /\ e.port \in m.c[e.l].acc, m1, "C15", "accepted-twice", x)
  IN [m2 EXCEPT !.c[e.l].acc = IF e.port > 0 THEN @ \cup {e.port} ELSE @, !.c[e.l].nacc = @ + 1]
Cli(m, e, x) ==
  [m EXCEPT !.c[e.l].cli = IF e.port > 0 THEN @ \cup {e.port} ELSE @, !.c[e.l].ncli = @ + 1]
Accend(m, e, x) ==
  LET c == m.c[e.l]
      pend == {i \in DOMAIN m.q : m.q[i].op = "cn" /\ m.q[i].to = e.l /\ m.q[i].st = "pend"}
      m1 == FlagIf(e.lb = 1 /\ e.rdy = 0 /\ (c.nacc < c.ncli \/ ~(c.cli \subseteq c.acc)),
                   m, "C15", "connection-not-accepted", x)
  IN FlagIf(c.nacc > c.ncli + c.canc + Cardinality(pend), m1, "C15", "accepted-too-many", x)
Dend(m, e, x) ==
  LET c == m.c[e.h] IN
  IF c.cls = "d" THEN FlagIf(e.rdy = 0 /\ Heads(m, e.h) # {} /\ ~m.anygone, m, "C14", "datagram-lost", x)
  ELSE m

\* ------------------------------------------------------------------ quiescence
\* Every thread is blocked, nothing will happen without a new stimulus; `from` is the time
\* since which that has been so.  Everything due must have been done.
LiveReady(m, h, d) == m.h[h].st = "live" /\ m.h[h].rdy[d] = 1
PendUnwoken(m, s) == m.s[s].st = "pend" /\ ~Woken(m, m.s[s].wk, m.s[s].pc)
OpUnwoken(m, o) == m.o[o].st = "pend" /\ ~m.o[o].busy /\ ~Woken(m, m.o[o].wk, m.o[o].pc)

\* Another wait on the handle has been dropped: a miss may be its doing.
Disturbed(m, h) == \E i \in DOMAIN m.s : m.s[i].h = h /\ m.s[i].st = "dropped"

FlagEach(m, props, rule, x) == FlagAll(m, UNION props, rule, x)

IdleSlots(m, x) ==
  LET S == {i \in DOMAIN m.s : PendUnwoken(m, i) /\ LiveReady(m, m.s[i].h, m.s[i].d)} IN
  FlagEach(m, {Miss(m, "C01") \cup (IF Disturbed(m, m.s[i].h) /\ ~m.flt THEN {"C03"} ELSE {}) : i \in S},
           "ready-but-not-woken", x)

IdleOps(m, x) ==
  LET S == {i \in DOMAIN m.o : OpUnwoken(m, i) /\ LiveReady(m, m.o[i].h, m.o[i].d)} IN
  FlagEach(m, {Miss(m, "C01") \cup (IF m.flt THEN {} ELSE {"C13"}) : i \in S},
           "operation-can-proceed-but-not-woken", x)

NUnwoken(m, i) == m.q[i].st = "pend" /\ ~m.q[i].busy /\ ~Woken(m, m.q[i].wk, m.q[i].pc)
IdleNet(m, x) ==
  LET S == {i \in DOMAIN m.q : NUnwoken(m, i) /\ m.q[i].h # 0 /\ LiveReady(m, m.q[i].h, m.q[i].d)}
      C == {i \in DOMAIN m.q : NUnwoken(m, i) /\ m.q[i].op = "cn" /\ m.q[i].rdy = 1}
      m1 == IF S = {} THEN m ELSE FlagAll(m, {"C01", "C13"} \cup {IF m.q[i].op = "ac" THEN "C15" ELSE "C13" : i \in S},
                                          "operation-can-proceed-but-not-woken", x)
  IN IF C = {} THEN m1 ELSE FlagAll(m1, {"C01", "C15"}, "connect-hangs", x)

Displaced(m, x) ==
  LET A == {i \in DOMAIN m.s : m.s[i].f = 0 /\ PendUnwoken(m, i) /\ m.h[m.s[i].h].st = "live"}
      B == {i \in DOMAIN m.o : m.o[i].f = 0 /\ OpUnwoken(m, i) /\ m.h[m.o[i].h].st = "live"}
      two == \/ \E i, j \in A : i < j /\ m.s[i].h = m.s[j].h /\ m.s[i].d = m.s[j].d
             \/ \E i, j \in B : i < j /\ m.o[i].h = m.o[j].h /\ m.o[i].d = m.o[j].d
             \/ \E i \in A, j \in B : m.s[i].h = m.o[j].h /\ m.s[i].d = m.o[j].d
  IN FlagIf(two /\ ~m.flt, m, "C03", "displaced-and-forgotten", x)

IdleTimers(m, from, x) ==
  LET Due(t) == /\ t.st = "live" /\ t.pend /\ t.hi <= from
                /\ ~Woken(m, t.wk, IF t.pc > t.set THEN t.pc ELSE t.set) IN
  IF \E i \in DOMAIN m.t : Due(m.t[i]) THEN FlagAll(m, Miss(m, "C06"), "expired-but-not-woken", x) ELSE m

IdleBo(m, x) ==
  LET ps == {"C09"} \cup (IF m.first THEN {"C17"} ELSE {})
      Idling(b) == b.st = "active" /\ ~b.inpoll
      m1 == IF \E i \in DOMAIN m.b : Idling(m.b[i]) /\ m.b[i].rdy
            THEN FlagAll(m, ps, "completed-but-not-returned", x) ELSE m
  IN IF \E i \in DOMAIN m.b : Idling(m.b[i]) /\ m.b[i].pend /\ ~m.b[i].rdy
     THEN FlagAll(m1, ps, "woken-but-not-polled", x) ELSE m1

IdleLive(m, live, from, x) ==
  LET L == {live[i] : i \in DOMAIN live}
      m1 == FlagIf(\E k \in L : m.w[k].o \in {"s", "o", "q"} /\ m.w[k].gone # 0, m, "C03", "dropped-wait-keeps-waker", x)
  IN FlagIf(\E k \in L : m.w[k].o = "t" /\ m.w[k].rel <= from, m1, "C07", "old-deadline-keeps-waker", x)

Idle(m, e, x) ==
  LET m1 == IdleSlots(m, x)
      m2 == IdleOps(m1, x)
      m3 == Displaced(IdleNet(m2, x), x)
      m4 == IdleTimers(m3, e.from, x)
      m5 == IdleBo(m4, x)
      m6 == IdleLive(m5, e.live, e.from, x)
      want == {m.h[i].g : i \in {j \in DOMAIN m.h : m.h[j].st = "live"}}
              \cup {m.q[i].g : i \in {j \in DOMAIN m.q : m.q[j].op = "cn" /\ m.q[j].st = "pend" /\ m.q[j].g # 0}}
      m7 == FlagIf({e.regs[i] : i \in DOMAIN e.regs} # want, m6, "C04", "registrations-differ", x)
      m8 == IF m.first THEN FlagIf(m.libth # 1 \/ m.pollers # 1, m7, "C17", "one-thread-one-poller", x) ELSE m7
  IN [m8 EXCEPT !.w = [k \in DOMAIN @ |-> IF @[k].fl THEN [@[k] EXCEPT !.fl = FALSE] ELSE @[k]]]

\* ------------------------------------------------------------------ process-wide events
Crash(m, e, x) ==
  FlagAll(m, m.pp, IF e.k = "dead" THEN "stuck" ELSE "library-panic", x)

Step1(m, e, x) ==
  CASE e.k = "wake"    -> Wake(m, e, x)
    [] e.k = "pc"      -> Pc(m, e, x)
    [] e.k = "pr"      -> Pr(m, e, x)
    [] e.k = "mod"     -> Mod(m, e, x)
    [] e.k = "collect" -> Collect(m, e, x)
    [] e.k = "rdy"     -> Rdy(m, e, x)
    [] e.k = "tpc"     -> Tpc(m, e, x)
    [] e.k = "tpr"     -> Tpr(m, e, x)
    [] e.k = "bp"      -> Bp(m, e, x)
    [] e.k = "bpr"     -> Bpr(m, e, x)
    [] e.k = "wbs"     -> Wbs(m, e, x)
    [] e.k = "wbe"     -> Wbe(m, e, x)
    [] e.k = "idle"    -> Idle(m, e, x)
    [] e.k = "slot"    -> SlotDecl(m, e, x)
    [] e.k = "sd"      -> Sd(m, e, x)
    [] e.k = "sdr"     -> Sdr(m, e, x)
    [] e.k = "tnew"    -> Tnew(m, e, x)
    [] e.k = "tsc"     -> Tsc(m, e, x)
    [] e.k = "tsr"     -> Tsr(m, e, x)
    [] e.k = "td"      -> Td(m, e, x)
    [] e.k = "tdr"     -> Tdr(m, e, x)
    [] e.k = "wf"      -> Wf(m, e, x)
    [] e.k = "bc"      -> Bc(m, e, x)
    [] e.k = "br"      -> Br(m, e, x)
    [] e.k = "onew"    -> Onew(m, e, x)
    [] e.k = "opc"     -> Opc(m, e, x)
    [] e.k = "att"     -> Att(m, e, x)
    [] e.k = "opr"     -> Opr(m, e, x)
    [] e.k = "od"      -> Od(m, e, x)
    [] e.k = "odr"     -> Odr(m, e, x)
    [] e.k = "add"     -> Add(m, e, x)
    [] e.k = "del"     -> Del(m, e, x)
    [] e.k = "close"   -> Close(m, e, x)
    [] e.k = "new"     -> New(m, e, x)
    [] e.k = "newerr"  -> NewErr(m, e, x)
    [] e.k = "dup"     -> Dup(m, e, x)
    [] e.k = "hd"      -> Hd(m, e, x)
    [] e.k = "hdr"     -> Hdr(m, e, x)
    [] e.k = "into"    -> Into(m, e, x)
    [] e.k = "pnew"    -> [m EXCEPT !.pollers = @ + 1]
    [] e.k = "spawn"   -> IF e.lib = 1 THEN [m EXCEPT !.libth = @ + 1] ELSE m
    [] e.k = "ep"      -> EpDecl(m, e, x)
    [] e.k = "epx"     -> Epx(m, e, x)
    [] e.k = "shut"    -> Shut(m, e, x)
    [] e.k = "hcx"     -> Hcx(m, e, x)
    [] e.k = "nnew"    -> Nnew(m, e, x)
    [] e.k = "npc"     -> Npc(m, e, x)
    [] e.k = "natt"    -> Natt(m, e, x)
    [] e.k = "npr"     -> Npr(m, e, x)
    [] e.k = "nd"      -> Nd(m, e, x)
    [] e.k = "ndr"     -> Ndr(m, e, x)
    [] e.k = "nrdy"    -> Nrdy(m, e, x)
    [] e.k = "acc"     -> Acc(m, e, x)
    [] e.k = "cli"     -> Cli(m, e, x)
    [] e.k = "accend"  -> Accend(m, e, x)
    [] e.k = "dend"    -> Dend(m, e, x)
    [] e.k \in {"panic", "dead"} -> Crash(m, e, x)
    [] OTHER -> m

Step(m, e, x) == Streak(Step1(m, e, x), e)
=============================================================================
