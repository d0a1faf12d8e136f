//! Random programs.
use crate::bo::{BoAct, BoSpec, Finish};
use crate::net::{Fam, NKind, Target};
use crate::ops::OpSpec;
use crate::prog::{Dur, NetOp, Op, TSpec, WkSpec};
use crate::world::WkKind;
use simrt::env::Fault;
use simrt::rng::Rng;

#[derive(Default, Debug)]
pub struct Plan {
    pub nh: usize,
    pub ns: usize,
    pub nt: usize,
    pub nb: usize,
    pub no: usize,
    pub nq: usize,
    pub setup: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    pub drivers: Vec<Vec<BoSpec>>,
    pub rounds: u32,
    pub bad: bool,
    pub flt: bool,
    /// percentage of system calls of socket operations that fail
    pub inj: u64,
    /// a unit of time is a nanosecond
    pub nanos: bool,
    pub jitter: u64,
    pub jitter_max: u64,
    /// factor applied to most durations
    pub scale: u64,
    /// properties a panic, deadlock or livelock counts against
    pub pp: Vec<&'static str>,
}

struct G<'a> {
    r: &'a mut Rng,
    p: Plan,
    bad: u64, // percent of bad wakers
    depth: u32,
    shared_deadline: i64,
    scale: u64,
    /// Times are multiples of this (0: no such thing).
    grid: u64,
    /// Wakers set and drop more timers than any internal buffer holds.
    flood: bool,
    /// Have calls to `block_on` disturb the reactor first.
    kick: bool,
}

impl G<'_> {
    fn ch(&mut self, pct: u64) -> bool {
        self.r.chance(pct, 100)
    }
    fn h(&mut self) -> usize {
        self.r.range(1, self.p.nh.max(1) as u64) as usize
    }
    fn s(&mut self) -> usize {
        self.r.range(1, self.p.ns.max(1) as u64) as usize
    }
    fn t(&mut self) -> usize {
        self.r.range(1, self.p.nt.max(1) as u64) as usize
    }
    fn o(&mut self) -> usize {
        self.r.range(1, self.p.no.max(1) as u64) as usize
    }
    fn wk(&mut self) -> WkSpec {
        let fresh = self.ch(25);
        let mut w = WkSpec { fresh, kind: WkKind::Plain, todo: vec![] };
        if self.bad > 0 && self.depth < 2 && self.ch(self.bad) {
            w.fresh = true;
            if self.ch(40) {
                w.kind = WkKind::Panic;
            } else {
                w.kind = WkKind::Reenter;
                self.depth += 1;
                let n = self.r.range(1, 3);
                for _ in 0..n {
                    let op = self.reenter_op();
                    w.todo.push(op);
                }
                self.depth -= 1;
            }
        }
        w
    }
    fn reenter_op(&mut self) -> Op {
        let timers = self.p.nt > 0;
        let io = self.p.nh > 0;
        if self.flood && self.r.chance(1, 3) {
            return Op::Flood { n: *self.r.pick(&[499, 500, 501, 520, 1100]) };
        }
        loop {
            match self.r.below(9) {
                0 | 1 if io => return Op::Poll { s: self.s(), wk: WkSpec::keep() },
                2 if io => return Op::DropS { s: self.s() },
                3 if io => return Op::DropH { h: self.h() },
                4 if io => return Op::New { h: self.h(), nb: true },
                5 if timers => return Op::TPoll { t: self.t(), wk: WkSpec::keep(), stream: false },
                6 if timers => return Op::TDrop { t: self.t() },
                7 if timers => {
                    let spec = self.tspec(true);
                    return Op::TSet { t: self.t(), spec };
                }
                8 if io => {
                    let s = self.s();
                    let h = self.h();
                    let d = self.r.below(2) as usize;
                    return Op::Fut { s, h, d, owned: true };
                }
                _ => {}
            }
        }
    }
    fn bits(&mut self) -> (Option<bool>, Option<bool>, Option<bool>) {
        match self.r.below(10) {
            0..=2 => (Some(true), None, None),
            3..=5 => (None, Some(true), None),
            6 => (Some(true), Some(true), None),
            7 => (Some(false), None, None),
            8 => (None, Some(false), None),
            _ => (None, None, Some(true)),
        }
    }
    /// A number of microseconds from the range, times the scale of the program.
    fn us(&mut self, a: u64, b: u64) -> u64 {
        let mut v = self.r.range(a, b);
        if self.grid > 0 {
            // Few different times, so that things coincide.
            v = v.div_ceil(self.grid) * self.grid;
        }
        if self.scale == 1 || self.r.chance(1, 5) {
            v
        } else {
            v * self.scale - if v > 0 && self.r.chance(1, 4) { 1 } else { 0 }
        }
    }
    fn dur(&mut self) -> Dur {
        match self.r.below(20) {
            0 | 1 => Dur::Us(0),
            2 => Dur::Us(1),
            3..=11 => Dur::Us(self.us(1, 60)),
            12..=15 => Dur::Us(self.us(50, 600)),
            16 => Dur::Us(self.us(600, 2500)),
            17 => Dur::Far,
            18 => Dur::Over,
            _ => Dur::Us(40),
        }
    }
    fn abs(&mut self) -> i64 {
        match self.r.below(10) {
            0 => -(self.r.range(0, 50) as i64),
            1..=4 => self.shared_deadline,
            5 => self.shared_deadline + 1,
            6 | 7 => self.us(0, 200) as i64,
            _ => self.us(0, 2000) as i64,
        }
    }
    fn period(&mut self) -> Dur {
        match self.r.below(12) {
            0 => Dur::Us(1),
            1..=4 => Dur::Us(self.us(1, 50)),
            5..=8 => Dur::Us(self.us(20, 400)),
            9 => Dur::Far,
            10 => Dur::Over,
            _ => Dur::Us(100),
        }
    }
    fn tspec(&mut self, set: bool) -> TSpec {
        match self.r.below(12) {
            0 if !set => TSpec::Never,
            0 => TSpec::After(Dur::Over),
            1..=4 => TSpec::After(self.dur()),
            5..=7 => TSpec::At(self.abs()),
            8 | 9 => TSpec::Interval(self.period()),
            _ => {
                let a = self.abs();
                TSpec::IntervalAt(a, self.period())
            }
        }
    }
    fn io_op(&mut self, cancel: u64, lifecycle: u64) -> Op {
        let x = self.r.below(100);
        if x < lifecycle {
            match self.r.below(7) {
                0 | 1 => Op::DropH { h: self.h() },
                2 => Op::Into { h: self.h() },
                3 => Op::NewDup { h: self.h() },
                _ => Op::New { h: self.h(), nb: self.r.chance(1, 2) },
            }
        } else if x < lifecycle + cancel {
            Op::DropS { s: self.s() }
        } else {
            match self.r.below(20) {
                0..=3 => Op::Fut {
                    s: self.s(),
                    h: self.h(),
                    d: self.r.below(2) as usize,
                    owned: self.r.chance(1, 2),
                },
                4..=11 => {
                    let wk = self.wk();
                    Op::Poll { s: self.s(), wk }
                }
                12..=17 => {
                    let (r, w, hup) = self.bits();
                    Op::Rdy { h: self.h(), r, w, hup }
                }
                18 => Op::Yield,
                _ => Op::Sleep { us: self.us(1, 30) },
            }
        }
    }
    /// Declares slot `s` on handle `h` and polls it right away.
    fn wait_ops(&mut self, s: usize, h: usize) -> Vec<Op> {
        let d = self.r.below(2) as usize;
        let wk = self.wk();
        if self.ch(35) {
            vec![Op::PollFn { s, h, d, wk }]
        } else {
            let owned = self.ch(50);
            vec![Op::Fut { s, h, d, owned }, Op::Poll { s, wk }]
        }
    }
    /// Many waits on one handle, or many handles that become ready together.
    fn crowd(&mut self, cancel: u64, life: u64) {
        let many = self.ch(40);
        self.p.nh = self.r.range(if many { 10 } else { 1 }, if many { 45 } else { 2 }) as usize;
        self.p.ns = self.r.range(12, 70) as usize;
        for h in 1..=self.p.nh {
            self.p.setup.push(Op::New { h, nb: true });
        }
        let d = self.r.below(2) as usize;
        for s in 1..=self.p.ns {
            let h = if many { (s - 1) % self.p.nh + 1 } else { self.h() };
            let wk = self.wk();
            let d = if self.ch(90) { d } else { 1 - d };
            let owned = self.ch(50);
            self.p.setup.push(Op::Fut { s, h, d, owned });
            self.p.setup.push(Op::Poll { s, wk });
        }
        let mut v = vec![];
        let k = self.r.below(6);
        for _ in 0..k {
            v.push(self.io_op(cancel, life));
        }
        let k = self.r.below(self.p.ns as u64);
        if self.ch(50) {
            let from = self.r.range(1, self.p.ns as u64);
            for s in from..=(from + k).min(self.p.ns as u64) {
                v.push(Op::DropS { s: s as usize });
            }
        }
        for h in 1..=self.p.nh {
            v.push(Op::Rdy { h, r: Some(d == 0), w: Some(d == 1), hup: None });
        }
        for _ in 0..6 {
            v.push(self.io_op(cancel, life));
        }
        self.p.threads.push(v);
    }
    fn tm_op(&mut self, set: u64) -> Op {
        let x = self.r.below(100);
        if x < set {
            let spec = self.tspec(true);
            Op::TSet { t: self.t(), spec }
        } else {
            match self.r.below(16) {
                0..=3 => {
                    let spec = self.tspec(false);
                    Op::TNew { t: self.t(), spec }
                }
                4..=10 => {
                    let wk = self.wk();
                    Op::TPoll { t: self.t(), wk, stream: self.r.chance(1, 2) }
                }
                11 => Op::TDrop { t: self.t() },
                12 => Op::TQuery { t: self.t() },
                13 => Op::Yield,
                _ => Op::Sleep { us: self.us(1, 80) },
            }
        }
    }
    /// Makes whoever drives the reactor come out of it, so that a call to `block_on` can take over.
    fn kick(&mut self) -> Vec<BoAct> {
        let mut v = vec![];
        // The end of an earlier call has the async-io thread come back once.
        for _ in 0..if self.ch(85) { 2 } else { 1 } {
            self.p.nt += 1;
            let t = self.p.nt;
            v.push(BoAct::Exec(Op::TNew { t, spec: TSpec::After(Dur::Us(900_000)) }));
            v.push(BoAct::Exec(Op::TPoll { t, wk: WkSpec::keep(), stream: true }));
            if self.ch(90) {
                v.push(BoAct::Exec(Op::TDrop { t }));
            }
            if self.ch(90) {
                v.push(BoAct::Busy(self.us(1, 40)));
            }
        }
        v
    }
    fn bo(&mut self, depth: u32, avail: &mut Vec<usize>) -> BoSpec {
        let b = avail.pop().unwrap();
        let finish = match self.r.below(10) {
            0 => Finish::Polls(1),
            1 | 2 => Finish::Polls(self.r.range(2, 4) as u32),
            3..=6 => Finish::Done,
            7 | 8 if self.p.nt > 0 => Finish::Timer(self.t()),
            9 if self.p.ns > 0 => Finish::Slot(self.s()),
            _ => Finish::Done,
        };
        let np = self.r.range(1, 4);
        let mut acts = vec![];
        for k in 0..np {
            let mut v = vec![];
            if self.kick && self.ch(if k == 0 { 70 } else { 5 }) {
                v.extend(self.kick());
            }
            let n = self.r.below(4);
            for _ in 0..n {
                match self.r.below(12) {
                    0..=2 => v.push(BoAct::WakeSelf),
                    3 if self.ch(20) => v.push(BoAct::Busy(self.r.range(70_000, 300_000))),
                    3 => v.push(BoAct::Busy(self.us(1, 2000))),
                    4 | 5 if depth < 2 && !avail.is_empty() => {
                        let s = self.bo(depth + 1, avail);
                        v.push(BoAct::Nested(s));
                    }
                    6 | 7 if self.p.nt > 0 => {
                        let op = self.tm_op(15);
                        v.push(BoAct::Exec(op));
                    }
                    8 | 9 if self.p.nh > 0 => {
                        let op = self.io_op(10, 5);
                        v.push(BoAct::Exec(op));
                    }
                    10 => {
                        let b2 = self.r.range(1, self.p.nb as u64) as usize;
                        v.push(BoAct::Exec(Op::WakeB { b: b2 }));
                    }
                    _ => {}
                }
            }
            acts.push(v);
        }
        if let Finish::Polls(n) = finish {
            // Such a future must be woken for its remaining polls.
            for i in 0..n.saturating_sub(1) as usize {
                if i >= acts.len() {
                    acts.push(vec![]);
                }
                if self.r.chance(2, 3) {
                    acts[i].push(BoAct::WakeSelf);
                }
            }
        }
        BoSpec { b, acts, finish }
    }
    fn q(&mut self) -> usize {
        self.r.range(1, self.p.nq.max(1) as u64) as usize
    }
    /// Bytes to send, as runs of equal values.
    fn bytes(&mut self, big: bool) -> Vec<(u8, usize)> {
        let total = match self.r.below(12) {
            0 => 0,
            1 | 2 => 1,
            3..=5 => self.r.range(2, 40) as usize,
            6..=8 => self.r.range(40, 5000) as usize,
            9 if big => self.r.range(5000, 300_000) as usize,
            10 if big => self.r.range(5000, 80_000) as usize,
            _ => self.r.range(2, 1000) as usize,
        };
        let mut v = vec![];
        let mut left = total;
        let mut b = self.r.below(250) as u8;
        let many = self.ch(50);
        while left > 0 {
            let m = if v.len() > 8 { left } else if many { 1 + self.r.below(4) as usize } else { 1 + self.r.below(left as u64) as usize };
            let k = m.min(left);
            v.push((b, k));
            b = ((b as u64 + 1 + self.r.below(248)) % 250) as u8;
            left -= k;
        }
        v
    }
    fn cap(&mut self, big: bool) -> usize {
        match self.r.below(10) {
            0 => 1,
            1 => 0,
            2..=4 => self.r.range(1, 30) as usize,
            5 | 6 => self.r.range(30, 3000) as usize,
            _ if big => self.r.range(1000, 150_000) as usize,
            _ => 6000,
        }
    }
    fn stream_op(&mut self, tcp: bool) -> NKind {
        let own = self.ch(50);
        let vec = self.ch(35);
        match self.r.below(20) {
            0..=7 => NKind::Read { own, vec, cap: self.cap(true) },
            8..=15 => NKind::Write { own, vec, runs: self.bytes(true) },
            16 => NKind::Flush { own },
            17 => NKind::Close { own },
            _ if tcp => NKind::Peek { cap: self.cap(true).max(1) },
            _ => NKind::Read { own, vec, cap: self.cap(false) },
        }
    }
    fn dgram_op(&mut self, connected: bool, zero: bool, udp: bool, targets: &[usize]) -> NKind {
        let cap = if self.ch(80) { 6000 } else { self.r.range(1, 50) as usize };
        let mut runs = self.bytes(false);
        if runs.is_empty() && !zero {
            runs.push((1, 1));
        }
        if udp {
            for r in runs.iter_mut() {
                r.1 = r.1.min(400);
            }
        }
        match self.r.below(12) {
            0 | 1 => NKind::Recv { cap },
            2 | 3 => NKind::RecvFrom { cap },
            4 if udp => NKind::DPeek { cap },
            5 if udp => NKind::DPeekFrom { cap },
            _ if connected => NKind::Send { runs },
            _ => {
                let to = *self.r.pick(targets);
                NKind::SendTo { to, runs }
            }
        }
    }
    fn opspec(&mut self) -> OpSpec {
        let kind = self.r.below(16) as u8;
        let mut script = vec![];
        for _ in 0..self.r.below(3) {
            script.push(-1);
        }
        script.push(match self.r.below(8) {
            0 => -2,
            1 => -3,
            2 => -4,
            3 => 0,
            _ => self.r.range(1, 7) as i64,
        });
        // Anything attempted beyond the result is a mistake and gets a distinct value.
        script.push(99);
        OpSpec { kind, script, gated: self.ch(80) }
    }
}

pub fn plan(profile: &str, r: &mut Rng) -> Plan {
    let scale = match profile {
        "timer" | "tset" => *r.pick(&[1, 1, 1, 1, 1, 1, 20, 600, 1000, 20_000]),
        "bo" | "mixed" | "drive" => *r.pick(&[1, 1, 1, 1, 1, 20, 100]),
        _ => 1,
    };
    let shared_deadline = r.range(20, 400) as i64 * scale as i64;
    let mut g = G { r, p: Plan::default(), bad: 0, depth: 0, shared_deadline, scale, grid: 0, kick: false, flood: false };
    if g.ch(50) {
        g.grid = *g.r.pick(&[10, 40, 200]);
    }
    g.p.scale = scale;
    g.p.rounds = g.r.below(4) as u32;
    if g.ch(40) {
        g.p.jitter = g.r.range(1, 60);
        g.p.jitter_max = *g.r.pick(&[3, 30, 300]);
    }
    match profile {
        "io" | "cancel" | "life" => {
            let (cancel, life) = match profile {
                "io" => (6, 2),
                "cancel" => (25, 1),
                _ => (8, 30),
            };
            let crowd = profile != "life" && g.ch(2);
            if crowd {
                g.crowd(cancel, life);
            }
            g.p.nh = if crowd { g.p.nh } else { g.r.range(1, if profile == "life" { 5 } else { 3 }) as usize };
            g.p.ns = if crowd { g.p.ns } else { g.r.range(2, 9) as usize };
            let nth = if crowd { 0 } else { g.r.range(1, 3) };
            for h in 1..=g.p.nh {
                if !crowd && (profile != "life" || h <= 2) {
                    let nb = g.ch(50);
                    g.p.setup.push(Op::New { h, nb });
                }
            }
            if !crowd && g.ch(60) {
                // Some waits are armed before the threads start.
                let n = g.r.range(1, g.p.ns as u64);
                for s in 1..=n {
                    let h = g.h();
                    let v = g.wait_ops(s as usize, h);
                    g.p.setup.extend(v);
                }
            }
            for _ in 0..nth {
                let n = g.r.range(2, 10);
                let mut v = vec![];
                for _ in 0..n {
                    if g.ch(25) {
                        let s = g.s();
                        let h = g.h();
                        v.extend(g.wait_ops(s, h));
                    } else {
                        v.push(g.io_op(cancel, life));
                    }
                }
                g.p.threads.push(v);
            }
            g.p.pp = match profile {
                "io" => vec!["C01", "C02"],
                "cancel" => vec!["C03"],
                _ => vec!["C04"],
            };
        }
        "timer" | "tset" => {
            let set = if profile == "timer" { 6 } else { 28 };
            g.p.nt = g.r.range(1, 8) as usize;
            let nth = g.r.range(1, 3);
            g.p.nanos = scale == 1 && g.ch(20);
            let twins = nth > 1 && g.ch(15);
            if twins {
                // Timers for the same deadline are registered at the same time.
                g.p.nt = g.p.nt.max(nth as usize);
                for t in 1..=nth as usize {
                    let wk = g.wk();
                    let spec = TSpec::At(g.shared_deadline);
                    g.p.threads.push(vec![Op::TNew { t, spec }, Op::TPoll { t, wk, stream: true }]);
                }
            } else if g.ch(50) {
                for t in 1..=g.r.range(1, g.p.nt as u64) {
                    let spec = g.tspec(false);
                    let wk = g.wk();
                    g.p.setup.push(Op::TNew { t: t as usize, spec });
                    g.p.setup.push(Op::TPoll { t: t as usize, wk, stream: true });
                }
            }
            for k in 0..nth {
                let n = g.r.range(2, 12);
                let mut v = vec![];
                for _ in 0..n {
                    if g.ch(20) {
                        let t = g.t();
                        let spec = g.tspec(false);
                        let wk = g.wk();
                        let stream = g.ch(50);
                        v.push(Op::TNew { t, spec });
                        v.push(Op::TPoll { t, wk, stream });
                    } else {
                        v.push(g.tm_op(set));
                    }
                }
                if twins {
                    if g.ch(60) {
                        v.clear();
                    }
                    g.p.threads[k as usize].extend(v);
                } else {
                    g.p.threads.push(v);
                }
            }
            g.p.pp = vec!["C05", "C06", "C07", "C08"];
        }
        "burst" => {
            // More operations than the internal queue holds, while the reactor is not allowed
            // (or barely able) to drain it.
            let n = *g.r.pick(&[300usize, 700, 1020]);
            g.p.nt = n;
            let two = g.ch(50);
            let (mut a, mut b) = (vec![], vec![]);
            for t in 1..=n {
                let v = if two && t % 2 == 0 { &mut b } else { &mut a };
                let d = match t % 7 {
                    0 => TSpec::At(shared_deadline),
                    1 => TSpec::After(Dur::Us(1 + (t as u64 * 37) % 900)),
                    2 => TSpec::At(500 + (t as i64 * 13) % 700),
                    3 => TSpec::At(shared_deadline + 1),
                    _ => TSpec::After(Dur::Us(400)),
                };
                v.push(Op::TNew { t, spec: d });
                v.push(Op::TPoll { t, wk: WkSpec::keep(), stream: true });
                if t % 3 == 0 {
                    v.push(Op::TDrop { t: t - 1 - (t % 2) });
                }
                if t % 5 == 0 {
                    v.push(Op::TSet { t, spec: TSpec::At(shared_deadline + 7) });
                }
            }
            g.p.threads.push(a);
            g.p.threads.push(b);
            g.p.jitter = 0;
            g.p.rounds = 1;
            g.p.pp = vec!["C06", "C07"];
        }
        "bo" if g.ch(25) => {
            // Few calls, few wake-ups: nothing that could make up for one that is lost.
            let idle = |b| BoSpec { b, acts: vec![], finish: Finish::Done };
            let two = g.ch(60);
            g.p.nb = if two { 2 } else { 1 };
            let mut acts = vec![];
            if two {
                for _ in 0..g.r.range(1, 3) {
                    acts.push(vec![]);
                }
                let k = g.r.below(acts.len() as u64 + 1) as usize;
                acts.insert(k, vec![BoAct::Exec(Op::WakeB { b: 2 })]);
                if g.ch(30) {
                    acts[k].push(BoAct::Busy(g.us(1, 900)));
                }
                if g.ch(30) {
                    acts[k].insert(0, BoAct::WakeSelf);
                }
                if g.ch(30) {
                    let k = g.r.below(acts.len() as u64) as usize;
                    acts[k].push(BoAct::WakeSelf);
                }
            }
            if g.ch(85) {
                let k = g.kick();
                if acts.is_empty() {
                    acts.push(vec![]);
                }
                acts[0].splice(0..0, k);
                acts[0].push(BoAct::WakeSelf);
            }
            let finish = if two && g.ch(30) { Finish::Polls(acts.len() as u32) } else { Finish::Done };
            g.p.drivers.push(vec![BoSpec { b: 1, acts, finish }]);
            if two {
                g.p.drivers.push(vec![idle(2)]);
            }
            for _ in 0..g.r.range(1, 2) {
                let mut v = vec![];
                let mut n = if g.ch(80) { 2 } else { 1 };
                for _ in 0..g.r.range(1, 3) {
                    let b = if g.ch(80) { 1 } else { g.p.nb };
                    match g.r.below(10) {
                        0 => v.push(Op::Sleep { us: g.us(1, 400) }),
                        1 => {}
                        _ => {
                            // The wake-up comes while that thread goes to sleep.
                            v.push(Op::AwaitB { b, n });
                            n += 1;
                            for _ in 0..g.r.below(3) {
                                v.push(Op::Yield);
                            }
                        }
                    }
                    v.push(Op::WakeB { b });
                }
                g.p.threads.push(v);
            }
            g.p.rounds = 0;
            g.p.pp = vec!["C09", "C10"];
        }
        "drive" if g.ch(25) => {
            // A call that drives the reactor for long, undisturbed, and then gets busy.
            g.p.scale = 1;
            g.scale = 1;
            g.p.nb = if g.ch(50) { 2 } else { 1 };
            g.p.nh = 1;
            g.p.ns = g.r.range(1, 2) as usize;
            g.p.setup.push(Op::New { h: 1, nb: true });
            for s in 1..=g.p.ns {
                let v = g.wait_ops(s, 1);
                g.p.setup.extend(v);
            }
            let long = |g: &mut G| *g.r.pick(&[300, 3_000, 12_000, 21_000, 35_000, 80_000]);
            if g.ch(40) {
                g.p.nt = 1;
                let us = long(&mut g);
                g.p.setup.push(Op::TNew { t: 1, spec: TSpec::After(Dur::Us(us)) });
                g.p.setup.push(Op::TPoll { t: 1, wk: WkSpec::keep(), stream: true });
            }
            for b in 1..=g.p.nb {
                let mut acts = vec![vec![]];
                if b == 1 {
                    acts[0] = g.kick();
                    acts[0].push(BoAct::WakeSelf);
                    acts.push(vec![]);
                }
                let busy = g.r.range(70_000, 300_000);
                acts.push(vec![BoAct::Busy(busy)]);
                let finish = if g.ch(30) { Finish::Polls(acts.len() as u32) } else { Finish::Done };
                g.p.drivers.push(vec![BoSpec { b, acts, finish }]);
            }
            let mut v = vec![];
            if g.ch(70) {
                v.push(Op::AwaitB { b: 1, n: 2 });
            }
            for b in 1..=g.p.nb {
                let us = long(&mut g);
                v.push(Op::Sleep { us });
                v.push(Op::WakeB { b });
            }
            let us = long(&mut g);
            v.push(Op::Sleep { us });
            v.push(Op::Rdy { h: 1, r: Some(true), w: Some(true), hup: None });
            g.p.threads.push(v);
            g.p.rounds = 1;
            g.p.pp = vec!["C11"];
        }
        "bo" | "mixed" | "drive" => {
            g.p.nb = g.r.range(1, if profile == "drive" { 4 } else { 6 }) as usize;
            if profile != "bo" {
                g.p.nh = g.r.range(1, 2) as usize;
                g.p.ns = g.r.range(1, 5) as usize;
                g.p.nt = g.r.range(1, 4) as usize;
                for h in 1..=g.p.nh {
                    g.p.setup.push(Op::New { h, nb: true });
                }
                for s in 1..=g.p.ns {
                    if g.ch(60) {
                        let h = g.h();
                        let v = g.wait_ops(s, h);
                        g.p.setup.extend(v);
                    }
                }
                for t in 1..=g.p.nt {
                    if g.ch(60) {
                        let spec = g.tspec(false);
                        g.p.setup.push(Op::TNew { t, spec });
                        let wk = g.wk();
                        if g.ch(60) {
                            g.p.setup.push(Op::TPoll { t, wk, stream: true });
                        }
                    }
                }
            } else if g.ch(40) {
                g.p.nt = 2;
                for t in 1..=2 {
                    let us = g.r.range(1, 800);
                    g.p.setup.push(Op::TNew { t, spec: TSpec::After(Dur::Us(us)) });
                }
            }
            let mut avail: Vec<usize> = (1..=g.p.nb).rev().collect();
            if g.ch(85) {
                g.kick = true;
            }
            let ndrv = g.r.range(1, 3);
            for _ in 0..ndrv {
                let mut v = vec![];
                let k = g.r.range(1, 3);
                for _ in 0..k {
                    if avail.is_empty() {
                        break;
                    }
                    v.push(g.bo(0, &mut avail));
                }
                if !v.is_empty() {
                    g.p.drivers.push(v);
                }
            }
            let nth = g.r.range(1, 2);
            for _ in 0..nth {
                let n = g.r.range(2, 9);
                let mut v = vec![];
                for _ in 0..n {
                    match g.r.below(10) {
                        0..=3 => {
                            let b = g.r.range(1, g.p.nb as u64) as usize;
                            v.push(Op::WakeB { b });
                        }
                        4 => {
                            let b = g.r.range(1, g.p.nb as u64) as usize;
                            v.push(Op::DoneB { b });
                        }
                        5 => v.push(Op::Sleep { us: g.us(1, 700) }),
                        6 => v.push(Op::Yield),
                        7 | 8 if g.p.nh > 0 => v.push(g.io_op(10, 3)),
                        9 if g.p.nt > 0 => v.push(g.tm_op(15)),
                        _ => {
                            let b = g.r.range(1, g.p.nb as u64) as usize;
                            v.push(Op::WakeB { b });
                        }
                    }
                }
                g.p.threads.push(v);
            }
            g.p.rounds = g.p.rounds.min(1);
            g.p.pp = match profile {
                "bo" => vec!["C09", "C10"],
                _ => vec!["C11"],
            };
        }
        "wakers" => {
            g.bad = 35;
            g.p.bad = true;
            g.flood = g.r.chance(1, 60);
            g.p.nh = g.r.range(1, 3) as usize;
            g.p.ns = g.r.range(2, 8) as usize;
            g.p.nt = g.r.range(0, 5) as usize;
            for h in 1..=g.p.nh {
                g.p.setup.push(Op::New { h, nb: true });
            }
            for s in 1..=g.p.ns {
                let h = g.h();
                let v = g.wait_ops(s, h);
                g.p.setup.extend(v);
            }
            for t in 1..=g.p.nt {
                let spec = g.tspec(false);
                let wk = g.wk();
                g.p.setup.push(Op::TNew { t, spec });
                g.p.setup.push(Op::TPoll { t, wk, stream: true });
            }
            let nth = g.r.range(1, 2);
            for _ in 0..nth {
                let n = g.r.range(2, 8);
                let mut v = vec![];
                for _ in 0..n {
                    if g.p.nt > 0 && g.ch(35) {
                        v.push(g.tm_op(15));
                    } else {
                        v.push(g.io_op(10, 6));
                    }
                }
                g.p.threads.push(v);
            }
            if g.ch(30) {
                g.p.nb = 1;
                g.p.drivers.push(vec![BoSpec { b: 1, acts: vec![], finish: Finish::Done }]);
            }
            g.p.pp = vec!["C12"];
        }
        "ops" => {
            g.p.nh = g.r.range(1, 2) as usize;
            g.p.no = g.r.range(1, 6) as usize;
            for h in 1..=g.p.nh {
                g.p.setup.push(Op::New { h, nb: true });
            }
            if g.ch(50) {
                g.p.ns = 2;
            }
            for o in 1..=g.p.no {
                let h = g.h();
                let spec = g.opspec();
                g.p.setup.push(Op::OpNew { o, h, spec });
            }
            let nth = g.r.range(1, 3);
            for _ in 0..nth {
                let n = g.r.range(2, 10);
                let mut v = vec![];
                for _ in 0..n {
                    match g.r.below(12) {
                        0..=5 => {
                            let wk = g.wk();
                            v.push(Op::OpPoll { o: g.o(), wk });
                        }
                        6 => v.push(Op::OpDrop { o: g.o() }),
                        7 if g.p.ns > 0 => {
                            let s = g.s();
                            let h = g.h();
                            v.extend(g.wait_ops(s, h));
                        }
                        8 => v.push(Op::Sleep { us: g.r.range(1, 20) }),
                        _ => {
                            let (r, w, hup) = g.bits();
                            v.push(Op::Rdy { h: g.h(), r, w, hup });
                        }
                    }
                }
                g.p.threads.push(v);
            }
            g.p.rounds = 1 + g.p.rounds;
            g.p.pp = vec!["C13"];
        }
        "faults" => {
            g.p.flt = true;
            g.p.nh = g.r.range(1, 3) as usize;
            g.p.ns = g.r.range(2, 8) as usize;
            g.p.nt = g.r.range(0, 4) as usize;
            for h in 1..=g.p.nh {
                g.p.setup.push(Op::New { h, nb: true });
            }
            let mut waits = vec![];
            for s in 1..=g.p.ns {
                let h = g.h();
                waits.extend(g.wait_ops(s, h));
            }
            for t in 1..=g.p.nt {
                let spec = g.tspec(false);
                let wk = g.wk();
                waits.push(Op::TNew { t, spec });
                waits.push(Op::TPoll { t, wk, stream: true });
            }
            if g.ch(40) {
                g.p.no = g.r.range(1, 3) as usize;
                for o in 1..=g.p.no {
                    let h = g.h();
                    let spec = g.opspec();
                    waits.push(Op::OpNew { o, h, spec });
                    if g.ch(50) {
                        let wk = g.wk();
                        waits.push(Op::OpPoll { o, wk });
                    }
                }
            }
            let nf = g.r.range(1, 4);
            let mut faults = vec![];
            for _ in 0..nf {
                faults.push(match g.r.below(8) {
                    0 => Op::Fault(Fault::Wait { n: g.r.range(1, 3) as u32, errno: 4 }),
                    1 | 2 => Op::Fault(Fault::Wait { n: g.r.range(1, 3) as u32, errno: 22 }),
                    3 => Op::Fault(Fault::Add { n: 1, errno: 28 }),
                    _ => Op::FaultMod { h: g.h(), n: g.r.range(1, 3) as u32, times: *g.r.pick(&[1, 1, 1, 2, 5, u32::MAX]) },
                });
            }
            if g.ch(50) {
                g.p.setup.extend(waits);
                g.p.setup.extend(faults);
            } else {
                g.p.setup.extend(faults);
                g.p.setup.extend(waits);
            }
            let nth = g.r.range(1, 2);
            for _ in 0..nth {
                let n = g.r.range(2, 10);
                let mut v = vec![];
                for _ in 0..n {
                    if g.p.no > 0 && g.ch(35) {
                        let o = g.o();
                        if g.ch(85) {
                            let wk = g.wk();
                            v.push(Op::OpPoll { o, wk });
                        } else {
                            v.push(Op::OpDrop { o });
                        }
                    } else if g.p.nt > 0 && g.ch(30) {
                        v.push(g.tm_op(12));
                    } else {
                        v.push(g.io_op(6, 4));
                    }
                }
                g.p.threads.push(v);
            }
            if g.ch(30) {
                g.p.nb = 1;
                g.p.drivers.push(vec![BoSpec { b: 1, acts: vec![], finish: Finish::Done }]);
            }
            g.p.pp = vec!["C16"];
        }
        "init" => {
            // First use from several threads at once; nothing has touched the library yet.
            let nth = g.r.range(2, 4) as usize;
            g.p.nh = nth;
            g.p.ns = nth;
            g.p.nt = nth;
            g.p.nb = nth;
            for i in 1..=nth {
                let mut v = vec![];
                match g.r.below(6) {
                    // returns at once, without waiting for anything
                    4 | 5 => {
                        v.push(Op::BlockOn(BoSpec { b: i, acts: vec![], finish: Finish::Polls(1) }));
                        v.push(Op::TNew { t: i, spec: TSpec::After(Dur::Us(30)) });
                        v.push(Op::TPoll { t: i, wk: WkSpec::keep(), stream: true });
                    }
                    0 => {
                        v.push(Op::TNew { t: i, spec: TSpec::After(Dur::Us(g.r.range(0, 50))) });
                        v.push(Op::TPoll { t: i, wk: WkSpec::keep(), stream: true });
                    }
                    1 | 2 => {
                        v.push(Op::New { h: i, nb: true });
                        v.extend(g.wait_ops(i, i));
                        v.push(Op::Rdy { h: i, r: Some(true), w: Some(true), hup: None });
                    }
                    _ => {
                        v.push(Op::BlockOn(BoSpec { b: i, acts: vec![vec![BoAct::WakeSelf]], finish: Finish::Polls(2) }));
                        v.push(Op::TNew { t: i, spec: TSpec::After(Dur::Us(30)) });
                        v.push(Op::TPoll { t: i, wk: WkSpec::keep(), stream: true });
                    }
                }
                g.p.threads.push(v);
            }
            g.p.pp = vec!["C17"];
        }
        "data" => {
            g.p.jitter = 0;
            if g.ch(20) {
                g.p.inj = g.r.range(3, 20);
            }
            g.p.nq = g.r.range(3, 6) as usize;
            let wk = WkSpec::keep();
            let mut ops: Vec<Op> = vec![];
            let fam = *g.r.pick(&[
                Fam::Tcp4, Fam::Tcp4, Fam::Tcp6, Fam::UnixPair, Fam::UnixPair, Fam::UnixPair, Fam::Pipe, Fam::Pipe, Fam::Udp4,
                Fam::Udp6, Fam::UdgPair, Fam::UdgPath,
            ]);
            let n = g.r.range(6, 26);
            match fam {
                Fam::Tcp4 | Fam::Tcp6 | Fam::UnixPair | Fam::Pipe => {
                    let pairs = if g.ch(25) { 2 } else { 1 };
                    g.p.nh = 2 * pairs;
                    for k in 0..pairs {
                        let via = g.r.below(4) as u8;
                        let bufs = match fam {
                            Fam::Tcp4 | Fam::Tcp6 => if g.ch(8) { 4096 } else { 0 },
                            _ => if g.ch(60) { 4096 } else { 0 },
                        };
                        g.p.setup.push(Op::N(NetOp::Pair { fam, a: 2 * k + 1, b: 2 * k + 2, via, bufs }));
                    }
                    for _ in 0..n {
                        let q = g.q();
                        let h = g.h();
                        match g.r.below(24) {
                            0 => ops.push(Op::N(NetOp::Cancel { q })),
                            1 => ops.push(Op::N(NetOp::Rewrap { h, via: g.r.below(6) as u8 })),
                            2 if g.ch(20) => ops.push(Op::N(NetOp::Shut { h })),
                            2 if g.ch(10) => ops.push(Op::N(NetOp::Drop { h })),
                            2 => ops.push(Op::Sleep { us: 5 }),
                            3..=8 => ops.push(Op::N(NetOp::Poll { q, wk: wk.clone() })),
                            _ => {
                                let mut kind = g.stream_op(matches!(fam, Fam::Tcp4 | Fam::Tcp6));
                                if fam == Fam::Pipe {
                                    // one way only
                                    let own = g.ch(50);
                                    let vec = g.ch(35);
                                    kind = if h % 2 == 1 {
                                        match kind {
                                            NKind::Read { .. } | NKind::Peek { .. } => NKind::Write { own, vec, runs: g.bytes(true) },
                                            k => k,
                                        }
                                    } else {
                                        NKind::Read { own, vec, cap: g.cap(true) }
                                    };
                                }
                                ops.push(Op::N(NetOp::Start { q, h, kind, wk: wk.clone() }));
                            }
                        }
                    }
                }
                _ => {
                    let udp = matches!(fam, Fam::Udp4 | Fam::Udp6);
                    let pair = g.ch(45) || fam == Fam::UdgPair;
                    let mut targets = vec![];
                    if pair {
                        g.p.nh = 2;
                        g.p.setup.push(Op::N(NetOp::Pair { fam, a: 1, b: 2, via: 0, bufs: 0 }));
                    } else {
                        g.p.nh = g.r.range(2, 3) as usize;
                        for h in 1..=g.p.nh {
                            let mut via = g.r.below(3) as u8;
                            if !udp && h > 1 && g.ch(25) {
                                via = 3; // unbound: sends only
                            } else {
                                targets.push(h);
                            }
                            g.p.setup.push(Op::N(NetOp::Dgram { fam, h, via }));
                        }
                    }
                    if !udp && g.ch(25) && (pair || !targets.is_empty()) {
                        // More messages than the receiver's queue takes.
                        let q = g.q();
                        let h = g.h();
                        for _ in 0..g.r.range(9, 14) {
                            let runs = vec![(g.r.range(1, 9) as u8, 1)];
                            let kind = if pair {
                                NKind::Send { runs }
                            } else {
                                NKind::SendTo { to: targets[0], runs }
                            };
                            g.p.setup.push(Op::N(NetOp::Start { q, h, kind, wk: wk.clone() }));
                        }
                    }
                    for _ in 0..n {
                        let q = g.q();
                        let h = g.h();
                        match g.r.below(20) {
                            0 => ops.push(Op::N(NetOp::Cancel { q })),
                            1 => ops.push(Op::N(NetOp::Rewrap { h, via: g.r.below(6) as u8 })),
                            2..=6 => ops.push(Op::N(NetOp::Poll { q, wk: wk.clone() })),
                            _ => {
                                let kind = g.dgram_op(pair, pair, udp, &targets);
                                ops.push(Op::N(NetOp::Start { q, h, kind, wk: wk.clone() }));
                            }
                        }
                    }
                }
            }
            let nth = g.r.range(1, 3) as usize;
            g.p.threads = vec![vec![]; nth];
            for o in ops {
                let t = g.r.below(nth as u64) as usize;
                g.p.threads[t].push(o);
            }
            g.p.rounds = g.p.rounds.min(2);
            g.p.pp = vec!["C14"];
        }
        "conn" => {
            g.p.jitter = 0;
            if g.ch(30) {
                g.p.inj = g.r.range(5, 30);
            }
            let nl = g.r.range(1, 2) as usize;
            g.p.nh = nl + 16;
            g.p.nq = g.r.range(3, 7) as usize;
            let wk = WkSpec::keep();
            for h in 1..=nl {
                let kind = g.r.below(4) as u8;
                let via = g.r.below(3) as u8;
                let full = g.ch(20);
                g.p.setup.push(Op::N(NetOp::Listener { h, kind, via, full }));
            }
            let mut next = nl + 1;
            let n = g.r.range(4, 14);
            let mut ops = vec![];
            for _ in 0..n {
                let q = g.q();
                let l = g.r.range(1, nl as u64) as usize;
                if next > nl + 12 {
                    break;
                }
                match g.r.below(20) {
                    0..=7 => {
                        let to = match g.r.below(12) {
                            0 => Target::RefusedTcp4,
                            1 => Target::RefusedTcp6,
                            2 => Target::MissingPath,
                            3 => Target::DeadPath,
                            4 => Target::MissingAbstract,
                            5 => if g.ch(30) { Target::LongPath } else { Target::L(l) },
                            _ => Target::L(l),
                        };
                        ops.push(Op::N(NetOp::Start { q, h: 0, kind: NKind::Connect { h2: next, to }, wk: wk.clone() }));
                        next += 1;
                    }
                    8..=10 => {
                        ops.push(Op::N(NetOp::Start { q, h: l, kind: NKind::Accept { h2: next }, wk: wk.clone() }));
                        next += 1;
                    }
                    11 | 12 => {
                        ops.push(Op::N(NetOp::Start { q, h: l, kind: NKind::Incoming { h2: next }, wk: wk.clone() }));
                        next += 1;
                    }
                    13 => ops.push(Op::N(NetOp::Cancel { q })),
                    14 if g.ch(50) => ops.push(Op::N(NetOp::Rewrap { h: g.h(), via: g.r.below(6) as u8 })),
                    15 => ops.push(Op::N(NetOp::Drop { h: nl + g.r.range(1, 12) as usize })),
                    16 => {
                        if !g.p.setup.iter().any(|o| matches!(o, Op::N(NetOp::Listener { h, full: true, .. }) if *h == l)) {
                            ops.push(Op::N(NetOp::RawClient { h: l }))
                        }
                    }
                    _ => ops.push(Op::N(NetOp::Poll { q, wk: wk.clone() })),
                }
            }
            let nth = g.r.range(1, 3) as usize;
            g.p.threads = vec![vec![]; nth];
            for o in ops {
                let t = g.r.below(nth as u64) as usize;
                g.p.threads[t].push(o);
            }
            g.p.rounds = g.p.rounds.min(2);
            g.p.pp = vec!["C15"];
        }
        _ => panic!("unknown profile {profile}"),
    }
    g.p
}
