//! Deterministic scheduler.
use crate::cov;
use crate::rng::Rng;
use std::arch::asm;
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicU32, Ordering::*};

pub const NONE: usize = usize::MAX;
pub const BASE_NS: u64 = 1_000_000_000_000;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum St {
    Run,
    Futex { addr: usize, deadline: u64 },
    Poll { deadline: u64 },
    Sleep { until: u64 },
    /// Waiting for a harness condition (see `wait_cond`).
    Cond { id: u64 },
    /// Stopped at a gate (manual strategy).
    Gate { id: u64 },
    /// Controller waiting for quiescence; virtual time may flow up to `until`.
    Idle { until: u64 },
    /// Controller waiting for threads to finish; virtual time may flow up to `limit`.
    Join { limit: u64 },
    Done,
}

pub struct Th {
    gate: &'static AtomicU32,
    pub st: St,
    pub name: String,
    prio: i64,
    /// the step up to which the thread is held up
    stalled: u64,
    /// inside bookkeeping of the harness: loses the baton only by blocking
    quiet: u32,
    timed_out: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Strategy {
    /// Switch to a random thread every geometric(mean) edges.
    Random { mean: u64 },
    /// Priorities with `depth` random change points within `len` edges.
    Pct { depth: u32, len: u64 },
    /// Never preempt; switch only when the running thread blocks.
    Coop,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Outcome {
    Ok,
    Stuck,
    Livelock,
}

pub struct Sim {
    pub on: bool,
    pub th: Vec<Th>,
    pub now: u64, // ns
    /// nanoseconds of a unit of the run's time ("us" everywhere): 1000, or 1 in some runs
    pub unit: u64,
    /// loads and stores are switch points in this run
    pub fine: bool,
    pub base: u64,
    pub rng: Rng,
    pub strat: Strategy,
    pub mean_hint: u64,
    /// chance (out of 1000) that a scheduling decision lets some virtual time pass
    pub jitter: u64,
    pub jitter_max_us: u64,
    /// time that has passed by itself in this run
    pub jitter_total: u64,
    countdown: i64,
    last_set: i64,
    pub steps: u64,
    phase_steps: u64,
    pub budget: u64,
    steps_since_time: u64,
    steps_since_switch: u64,
    change_points: Vec<u64>,
    low_prio: i64,
    outcome: Outcome,
    pub on_dead: Option<fn(&str)>,
    pub switches: u64,
    pub stalls: u64,
    /// edges executed by instrumented code (measures what was explored)
    pub gates_on: bool,
    pub spawned: u64,
    pub manage: bool,
    /// ids of threads that finished before this run (reused)
    free: Vec<usize>,
    pub max_tid: usize,
    pub last_spawned: usize,
}

struct S(UnsafeCell<Sim>);
unsafe impl Sync for S {}
static SIM: S = S(UnsafeCell::new(Sim {
    on: false,
    th: Vec::new(),
    now: BASE_NS,
    unit: 1000,
    fine: false,
    base: BASE_NS,
    rng: Rng::zero(),
    strat: Strategy::Coop,
    mean_hint: 4,
    jitter: 0,
    jitter_max_us: 0,
    jitter_total: 0,
    countdown: i64::MAX,
    last_set: i64::MAX,
    steps: 0,
    phase_steps: 0,
    budget: 20_000_000,
    steps_since_time: 0,
    steps_since_switch: 0,
    change_points: Vec::new(),
    low_prio: 0,
    outcome: Outcome::Ok,
    on_dead: None,
    switches: 0,
    stalls: 0,
    gates_on: false,
    spawned: 0,
    manage: false,
    free: Vec::new(),
    max_tid: 0,
    last_spawned: 0,
}));

#[allow(clippy::mut_from_ref)]
#[inline]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM.0.get() }
}

#[inline]
pub fn tid() -> usize {
    TID.with(|t| t.get())
}
pub fn tid_or_99() -> usize {
    let t = tid();
    if t == NONE {
        99
    } else {
        t
    }
}
pub fn set_tid(t: usize) {
    TID.with(|c| c.set(t))
}

pub unsafe fn raw_syscall(n: isize, a: isize, b: isize, c: isize, d: isize, e: isize, f: isize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
         in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}

fn gate_wait(g: &AtomicU32) {
    loop {
        if g.compare_exchange(1, 0, SeqCst, SeqCst).is_ok() {
            return;
        }
        unsafe {
            raw_syscall(202, g as *const _ as isize, 128, 0, 0, 0, 0);
        }
    }
}
fn gate_open(g: &AtomicU32) {
    g.store(1, SeqCst);
    unsafe {
        raw_syscall(202, g as *const _ as isize, 129, 1, 0, 0, 0);
    }
}

// ---------------------------------------------------------------- time
pub fn now_ns() -> u64 {
    sim().now
}
/// Virtual time of the current run in microseconds (capped for 32-bit model integers).
pub fn rel_us() -> u64 {
    (sim().now.saturating_sub(sim().base)) / sim().unit
}
fn set_now(t: u64) {
    let s = sim();
    let t = (t + s.unit - 1) / s.unit * s.unit;
    if t > s.now {
        s.now = t;
        s.steps_since_time = 0;
        fire_timeouts();
    }
}
fn fire_timeouts() {
    let s = sim();
    let now = s.now;
    for t in s.th.iter_mut() {
        let d = match t.st {
            St::Futex { deadline, .. } | St::Poll { deadline } => deadline,
            St::Sleep { until } => until,
            _ => continue,
        };
        if d <= now {
            t.timed_out = true;
            t.st = St::Run;
        }
    }
}

// ---------------------------------------------------------------- scheduling
fn flush_steps() {
    let s = sim();
    if s.last_set != i64::MAX {
        let used = (s.last_set - s.countdown).max(0) as u64;
        s.steps += used;
        s.phase_steps += used;
        s.steps_since_time += used;
        s.steps_since_switch += used;
    }
}

fn rearm() {
    let s = sim();
    let d = match s.strat {
        Strategy::Random { mean } => s.rng.geometric(mean) as i64,
        Strategy::Pct { .. } => {
            let cur = s.steps;
            match s.change_points.iter().filter(|p| **p > cur).min() {
                Some(p) => ((*p - cur) as i64).min(20_000),
                None => 20_000,
            }
        }
        Strategy::Coop => 20_000,
    };
    s.countdown = d;
    s.last_set = d;
}

/// Edge callback: the running thread may lose the baton here.
#[inline]
pub fn edge(g: *mut u32, v: u32) {
    if TID.with(|t| t.get()) == NONE {
        return;
    }
    let s = sim();
    cov::cov().seen[cov::index(g)] = true;
    s.countdown -= 1;
    if v == cov::HOT {
        hot();
    } else if s.countdown <= 0 {
        slow();
    }
}
/// Memory access of the code under test: a switch point in some runs, unless on the thread's stack.
#[inline]
pub fn access(p: usize) {
    let s = sim();
    if !s.fine || TID.with(|t| t.get()) == NONE {
        return;
    }
    let here = &s as *const _ as usize;
    if p.wrapping_sub(here).wrapping_add(1 << 12) < 1 << 18 {
        return;
    }
    step();
}
fn step() {
    let s = sim();
    s.countdown -= 1;
    if s.countdown <= 0 {
        slow();
    }
}

/// One of the places where this run holds threads up.
#[cold]
fn hot() {
    let me = tid();
    let s = sim();
    if !s.on || me >= s.th.len() || s.strat == Strategy::Coop || s.th[me].quiet > 0 || !s.rng.chance(2, 3) {
        return;
    }
    flush_steps();
    match s.strat {
        Strategy::Pct { .. } => {
            s.low_prio -= 1;
            s.th[me].prio = s.low_prio;
        }
        _ => {
            // Until nobody else can run, or for some time.
            let n = if s.rng.chance(1, 2) { 100_000 } else { s.rng.range(1, 2000) };
            s.th[me].stalled = s.steps + n;
        }
    }
    s.stalls += 1;
    s.countdown = 0;
    s.last_set = 0;
    slow();
}

#[cold]
fn slow() {
    let me = tid();
    let s = sim();
    if !s.on || me >= s.th.len() {
        s.countdown = 1 << 40;
        s.last_set = s.countdown;
        return;
    }
    flush_steps();
    if s.th[me].quiet > 0 {
        rearm();
        return;
    }
    if s.phase_steps > s.budget {
        give_up(Outcome::Livelock);
    }
    if s.steps_since_time > 40_000 {
        // A loop that waits for the clock must see it move.
        let t = s.now + s.unit;
        s.jitter_total += 1;
        set_now(t);
    }
    if s.jitter > 0 && s.rng.chance(s.jitter, 1000) {
        let d = s.rng.range(1, s.jitter_max_us.max(1));
        s.jitter_total += d;
        let t = s.now + d * s.unit;
        set_now(t);
    }
    if let Strategy::Pct { .. } = s.strat {
        if let Some(i) = s.change_points.iter().position(|p| *p <= s.steps) {
            s.change_points.remove(i);
            s.low_prio -= 1;
            s.th[me].prio = s.low_prio;
        } else if s.steps_since_switch > 20_000 {
            // Fairness: a spinning thread must not starve the one it waits for.
            s.steps_since_switch = 0;
            s.low_prio -= 1;
            s.th[me].prio = s.low_prio;
        }
    }
    let next = pick(true);
    rearm();
    if next != me {
        switch(me, next);
    }
}

/// A place where switching is especially interesting (harness operation boundaries, OS calls).
pub fn point() {
    let me = tid();
    if me == NONE || !sim().on {
        return;
    }
    let s = sim();
    match s.strat {
        Strategy::Random { .. } => {
            if s.mean_hint > 0 && s.rng.below(s.mean_hint) == 0 {
                flush_steps();
                s.countdown = 0;
                s.last_set = 0;
                slow();
            } else {
                step();
            }
        }
        _ => step(),
    }
}

/// While it lives, the thread loses the baton only by blocking.
pub struct Quiet(usize);
pub fn quiet() -> Quiet {
    let me = tid();
    let s = sim();
    if me == NONE || !s.on || me >= s.th.len() {
        return Quiet(NONE);
    }
    s.th[me].quiet += 1;
    Quiet(me)
}
impl Drop for Quiet {
    fn drop(&mut self) {
        if self.0 != NONE {
            if let Some(t) = sim().th.get_mut(self.0) {
                t.quiet = t.quiet.saturating_sub(1);
            }
        }
    }
}

/// `sched_yield`: let somebody else run if anybody can.
pub fn yield_now() {
    let me = tid();
    if me == NONE || !sim().on {
        return;
    }
    let s = sim();
    flush_steps();
    s.steps += 50;
    s.phase_steps += 50;
    s.steps_since_time += 50;
    s.countdown = 0;
    s.last_set = 0;
    if s.th[me].quiet > 0 {
        rearm();
        return;
    }
    if s.phase_steps > s.budget {
        give_up(Outcome::Livelock);
    }
    if s.steps_since_time > 40_000 {
        let t = s.now + s.unit;
        s.jitter_total += 1;
        set_now(t);
    }
    s.low_prio -= 1;
    s.th[me].prio = s.low_prio;
    let mut others: Vec<usize> = (0..s.th.len()).filter(|t| *t != me && s.th[*t].st == St::Run).collect();
    if others.is_empty() {
        rearm();
        return;
    }
    let next = match s.strat {
        Strategy::Random { .. } => others[s.rng.below(others.len() as u64) as usize],
        _ => {
            others.sort_by_key(|t| -s.th[*t].prio);
            others[0]
        }
    };
    rearm();
    switch(me, next);
}

/// Picks a runnable thread, letting virtual time flow if nobody can run.
fn pick(_cur_runnable: bool) -> usize {
    loop {
        crate::env::refresh_real();
        let s = sim();
        let n = s.th.iter().filter(|t| t.st == St::Run).count();
        if n > 0 {
            match s.strat {
                Strategy::Random { .. } => {
                    let steps = s.steps;
                    let m = s.th.iter().filter(|t| t.st == St::Run && t.stalled <= steps).count();
                    if m == 0 {
                        // All are held up: let one of them go.
                        let k = s.rng.below(n as u64) as usize;
                        let i = s.th.iter().enumerate().filter(|(_, t)| t.st == St::Run).nth(k).unwrap().0;
                        s.th[i].stalled = 0;
                        return i;
                    }
                    let k = s.rng.below(m as u64) as usize;
                    return s.th.iter().enumerate().filter(|(_, t)| t.st == St::Run && t.stalled <= steps).nth(k).unwrap().0;
                }
                _ => {
                    return s
                        .th
                        .iter()
                        .enumerate()
                        .filter(|(_, t)| t.st == St::Run)
                        .max_by_key(|(_, t)| t.prio)
                        .unwrap()
                        .0;
                }
            }
        }
        // Nobody can run: let time flow, or hand over to the controller.
        let limit = match s.th[0].st {
            St::Idle { until } => until,
            St::Join { limit } => limit,
            _ => u64::MAX,
        };
        let next = s
            .th
            .iter()
            .filter_map(|t| match t.st {
                St::Futex { deadline, .. } | St::Poll { deadline } => Some(deadline),
                St::Sleep { until } => Some(until),
                _ => None,
            })
            .filter(|d| *d != u64::MAX)
            .min();
        if let Some(d) = next {
            if d <= limit {
                s.phase_steps += 200;
                if s.phase_steps > s.budget {
                    give_up(Outcome::Livelock);
                }
                let t = d.max(s.now + 1);
                set_now(t);
                continue;
            }
        }
        match s.th[0].st {
            St::Idle { until } => {
                if crate::env::real_grace() {
                    continue;
                }
                set_now(until);
                let s = sim();
                if s.th.iter().any(|t| t.st == St::Run) {
                    continue;
                }
                s.th[0].st = St::Run;
                return 0;
            }
            St::Join { .. } => {
                if crate::env::real_grace() {
                    continue;
                }
                s.outcome = Outcome::Stuck;
                s.th[0].st = St::Run;
                return 0;
            }
            _ => {
                if crate::env::real_grace() {
                    continue;
                }
                give_up(Outcome::Stuck);
            }
        }
    }
}

fn give_up(o: Outcome) -> ! {
    let s = sim();
    let d = format!("{:?}: {}", o, describe());
    s.on = false;
    if let Some(f) = s.on_dead {
        f(&d);
    }
    eprintln!("simrt: {}", d);
    unsafe {
        raw_syscall(231, 4, 0, 0, 0, 0, 0);
    }
    unreachable!()
}

/// The run produces events without end.
pub fn runaway() {
    if sim().on {
        give_up(Outcome::Livelock);
    }
}

pub fn describe() -> String {
    let s = sim();
    s.th.iter()
        .enumerate()
        .filter(|(_, t)| t.st != St::Done)
        .map(|(i, t)| format!("{}:{}={:?}", i, t.name, t.st))
        .collect::<Vec<_>>()
        .join("; ")
}

fn switch(me: usize, next: usize) {
    let s = sim();
    s.switches += 1;
    s.steps_since_switch = 0;
    let g = s.th[next].gate;
    let mine = s.th[me].gate;
    gate_open(g);
    gate_wait(mine);
}

/// Blocks the current thread; returns true if it was its deadline that ended the wait.
pub fn block(st: St) -> bool {
    let me = tid();
    let s = sim();
    debug_assert!(me != NONE);
    s.th[me].st = st;
    s.th[me].timed_out = false;
    flush_steps();
    if s.phase_steps > s.budget {
        give_up(Outcome::Livelock);
    }
    let next = pick(false);
    rearm();
    if next != me {
        switch(me, next);
    }
    sim().th[me].timed_out
}

pub fn make_runnable(t: usize) {
    let s = sim();
    if s.th[t].st != St::Done {
        s.th[t].st = St::Run;
        // A higher-priority thread that became runnable runs at the next edge.
        if let Strategy::Pct { .. } = s.strat {
            flush_steps();
            s.countdown = 1;
            s.last_set = 1;
        }
    }
}

// ---------------------------------------------------------------- conditions
pub fn wait_cond(id: u64) {
    block(St::Cond { id });
}
pub fn signal_cond(id: u64) {
    for t in 0..sim().th.len() {
        if sim().th[t].st == (St::Cond { id }) {
            make_runnable(t);
        }
    }
}

// ---------------------------------------------------------------- gates (manual replay)
pub fn gate(id: u64) {
    if sim().gates_on && tid() != NONE && sim().on {
        block(St::Gate { id });
    }
}
pub fn at_gate() -> Vec<(usize, u64)> {
    sim()
        .th
        .iter()
        .enumerate()
        .filter_map(|(i, t)| match t.st {
            St::Gate { id } => Some((i, id)),
            _ => None,
        })
        .collect()
}
pub fn open_gate(t: usize) {
    make_runnable(t);
}

// ---------------------------------------------------------------- futex, sleep
pub fn futex_wait(addr: usize, val: u32, deadline: u64) -> isize {
    point();
    let cur = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
    if cur != val {
        return -11; // EAGAIN
    }
    if deadline <= sim().now {
        return -110;
    }
    if block(St::Futex { addr, deadline }) {
        -110 // ETIMEDOUT
    } else {
        0
    }
}
pub fn futex_wake(addr: usize, n: u64) -> isize {
    let s = sim();
    let mut w: Vec<usize> = s
        .th
        .iter()
        .enumerate()
        .filter(|(_, t)| matches!(t.st, St::Futex { addr: a, .. } if a == addr))
        .map(|(i, _)| i)
        .collect();
    if w.len() as u64 > n {
        let mut r = s.rng.clone();
        r.shuffle(&mut w);
        s.rng = r;
        w.truncate(n as usize);
    }
    for t in &w {
        make_runnable(*t);
    }
    point();
    w.len() as isize
}
pub fn sleep_ns(d: u64) {
    let until = sim().now.saturating_add(d);
    block(St::Sleep { until });
}
pub fn sleep_us(d: u64) {
    sleep_ns(d * sim().unit)
}

// ---------------------------------------------------------------- threads
struct Start {
    f: extern "C" fn(*mut u8) -> *mut u8,
    arg: *mut u8,
    tid: usize,
}

extern "C" {
    fn dlsym(h: *mut u8, s: *const u8) -> *mut u8;
    fn pthread_key_create(k: *mut u32, d: Option<extern "C" fn(*mut u8)>) -> i32;
    fn pthread_setspecific(k: u32, v: *const u8) -> i32;
}
static KEY: AtomicU32 = AtomicU32::new(u32::MAX);

extern "C" fn thread_finished(v: *mut u8) {
    let me = v as usize - 1;
    let s = sim();
    s.th[me].st = St::Done;
    set_tid(NONE);
    if !s.on {
        return;
    }
    let any_join = matches!(s.th[0].st, St::Join { .. });
    if any_join {
        JOIN_CHECK.with_join();
    }
    flush_steps();
    let next = pick(false);
    rearm();
    gate_open(sim().th[next].gate);
}

struct JoinSet(UnsafeCell<Vec<usize>>);
unsafe impl Sync for JoinSet {}
static JOIN_CHECK: JoinSet = JoinSet(UnsafeCell::new(Vec::new()));
impl JoinSet {
    fn with_join(&self) {
        let v = unsafe { &*self.0.get() };
        if v.iter().all(|t| sim().th[*t].st == St::Done) {
            sim().th[0].st = St::Run;
        }
    }
}

extern "C" fn trampoline(p: *mut u8) -> *mut u8 {
    let b = unsafe { Box::from_raw(p as *mut Start) };
    set_tid(b.tid);
    unsafe {
        pthread_setspecific(KEY.load(SeqCst), (b.tid + 1) as *const u8);
    }
    gate_wait(sim_gate(b.tid));
    (b.f)(b.arg)
}
fn sim_gate(t: usize) -> &'static AtomicU32 {
    // `th` may be reallocated by the running thread, so the gate is found through a side table.
    unsafe { &*GATES[t].load(SeqCst) }
}
static GATES: [std::sync::atomic::AtomicPtr<AtomicU32>; 65536] =
    [const { std::sync::atomic::AtomicPtr::new(std::ptr::null_mut()) }; 65536];

fn new_thread(name: &str) -> usize {
    let s = sim();
    let g: &'static AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
    let prio = match s.strat {
        Strategy::Pct { .. } => s.rng.below(1_000_000) as i64,
        _ => 0,
    };
    let th = Th { gate: g, st: St::Run, name: name.to_string(), prio, timed_out: false, stalled: 0, quiet: 0 };
    let id = match s.free.pop() {
        Some(i) => {
            s.th[i] = th;
            i
        }
        None => {
            s.th.push(th);
            s.th.len() - 1
        }
    };
    s.max_tid = s.max_tid.max(id);
    GATES[id].store(g as *const _ as *mut _, SeqCst);
    id
}

pub unsafe fn create(
    th: *mut usize,
    attr: *const u8,
    f: extern "C" fn(*mut u8) -> *mut u8,
    arg: *mut u8,
) -> i32 {
    static REAL: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let mut r = REAL.load(SeqCst);
    if r == 0 {
        r = dlsym(-1isize as *mut u8, c"pthread_create".as_ptr() as *const u8) as usize;
        REAL.store(r, SeqCst);
    }
    type Fun = unsafe extern "C" fn(
        *mut usize,
        *const u8,
        extern "C" fn(*mut u8) -> *mut u8,
        *mut u8,
    ) -> i32;
    let real: Fun = std::mem::transmute(r);
    if tid() == NONE || !sim().manage {
        return real(th, attr, f, arg);
    }
    let nm = NEXT_NAME.take();
    point();
    let id = new_thread(&nm);
    sim().spawned += 1;
    if nm != "lib" {
        sim().last_spawned = id;
    }
    crate::log::ev(&format!("\"k\":\"spawn\",\"w\":{},\"lib\":{}", id, (nm == "lib") as u8));
    let b = Box::into_raw(Box::new(Start { f, arg, tid: id }));
    let rc = real(th, attr, trampoline, b as *mut u8);
    if rc != 0 {
        sim().th[id].st = St::Done;
    }
    point();
    rc
}

struct Name(UnsafeCell<Option<String>>);
unsafe impl Sync for Name {}
static NEXT_NAME: Name = Name(UnsafeCell::new(None));
impl Name {
    fn take(&self) -> String {
        unsafe { (*self.0.get()).take().unwrap_or_else(|| "lib".to_string()) }
    }
    fn set(&self, s: &str) {
        unsafe { *self.0.get() = Some(s.to_string()) }
    }
}

/// Makes the calling thread thread 0, the controller.
pub fn init() {
    unsafe {
        let mut k = 0u32;
        pthread_key_create(&mut k, Some(thread_finished));
        KEY.store(k, SeqCst);
        // One CPU is enough: only one thread runs at a time, and hand-over is cheaper.
        let mut cpu = 0u32;
        raw_syscall(309, &mut cpu as *mut u32 as isize, 0, 0, 0, 0, 0);
        let mut mask = [0u64; 16];
        mask[(cpu / 64) as usize] |= 1 << (cpu % 64);
        raw_syscall(203, 0, 128, mask.as_ptr() as isize, 0, 0, 0);
    }
    cov::init();
    let id = new_thread("controller");
    assert_eq!(id, 0);
    set_tid(0);
    let s = sim();
    s.on = true;
    s.manage = true;
    rearm();
}

/// Starts a run: fixes every random choice and the time base.
pub fn begin(a: u64, b: u64, strat: Strategy) {
    let s = sim();
    // Round the time base to a full second so that runs look alike.
    let t = (s.now / 1_000_000_000 + 1) * 1_000_000_000;
    s.rng = Rng::new(a, b);
    s.strat = strat;
    set_now(t);
    let s = sim();
    s.base = s.now;
    s.steps = 0;
    for t in s.th.iter_mut() {
        t.stalled = 0;
        t.quiet = 0;
    }
    if strat != Strategy::Coop {
        cov::choose(&mut s.rng);
    }
    s.phase_steps = 0;
    s.low_prio = 0;
    s.change_points.clear();
    s.outcome = Outcome::Ok;
    if let Strategy::Pct { depth, len } = strat {
        for _ in 0..depth {
            let p = s.rng.range(1, len);
            s.change_points.push(p);
        }
        for i in 0..s.th.len() {
            s.th[i].prio = s.rng.below(1_000_000) as i64;
        }
    }
    s.free = (1..s.th.len()).rev().filter(|i| s.th[*i].st == St::Done).collect();
    s.max_tid = s.th.iter().enumerate().filter(|(_, t)| t.st != St::Done).map(|(i, _)| i).max().unwrap_or(0);
    rearm();
}

/// Ends a run: cooperative scheduling, no jitter.
pub fn end() {
    let s = sim();
    s.strat = Strategy::Coop;
    s.jitter = 0;
    s.unit = 1000;
    s.fine = false;
    s.phase_steps = 0;
    rearm();
}

pub fn spawn<F: FnOnce() + Send + 'static>(name: &str, f: F) -> usize {
    NEXT_NAME.set(name);
    std::thread::Builder::new()
        .stack_size(256 * 1024)
        .spawn(f)
        .expect("spawn");
    sim().last_spawned
}

pub fn is_sleeping(t: usize) -> bool {
    matches!(sim().th[t].st, St::Sleep { .. })
}
pub fn is_done(t: usize) -> bool {
    sim().th[t].st == St::Done
}

/// Controller: waits for the threads; virtual time may flow for `limit_us`.
pub fn join(ts: &[usize], limit_us: u64) -> Outcome {
    let s = sim();
    s.phase_steps = 0;
    s.outcome = Outcome::Ok;
    if ts.iter().all(|t| is_done(*t)) {
        return Outcome::Ok;
    }
    unsafe {
        *JOIN_CHECK.0.get() = ts.to_vec();
    }
    let limit = s.now + limit_us * 1000;
    block(St::Join { limit });
    sim().outcome
}

/// Controller: waits until nobody else can run, without letting time pass.
pub fn settle() {
    let s = sim();
    s.phase_steps = 0;
    let until = s.now;
    block(St::Idle { until });
}

/// Controller: lets `us` of virtual time pass and settles.
pub fn advance(us: u64) {
    let s = sim();
    s.phase_steps = 0;
    let until = s.now + us * s.unit;
    block(St::Idle { until });
    settle();
}
