//! Virtual epoll, descriptor readiness, OS faults.
use crate::rt::{self, St};
use std::cell::UnsafeCell;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Oneshot,
    Level,
    Edge,
    EdgeOneshot,
}

#[derive(Clone, Debug)]
pub struct Reg {
    pub fd: i32,
    /// unique id of this registration
    pub g: u64,
    pub key: usize,
    pub r: bool,
    pub w: bool,
    pub pri: bool,
    pub mode: Mode,
    pub armed: bool,
    /// edge mode: readiness generation already reported
    pub seen: u64,
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Rdy {
    pub r: bool,
    pub w: bool,
    pub hup: bool,
    pub err: bool,
}
impl Rdy {
    pub fn rd(&self) -> bool {
        self.r || self.hup || self.err
    }
    pub fn wr(&self) -> bool {
        self.w || self.hup || self.err
    }
}

#[derive(Default)]
pub struct Ep {
    pub regs: BTreeMap<i32, Reg>,
    pub notified: bool,
    pub waiting: usize,
    pub alive: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Out {
    pub key: usize,
    pub r: bool,
    pub w: bool,
    pub hup: bool,
    pub err: bool,
}

/// A planned failure of an OS call.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// fail the n-th coming call (1 = next)
    Wait { n: u32, errno: i32 },
    /// fail the n-th coming modify of this descriptor
    Mod { fd: i32, n: u32, errno: i32, times: u32 },
    /// fail the n-th coming add
    Add { n: u32, errno: i32 },
}

#[derive(Default)]
pub struct Env {
    pub eps: Vec<Ep>,
    /// virtual descriptors: readiness and its generation
    pub vfd: BTreeMap<i32, (Rdy, u64)>,
    pub next_g: u64,
    pub faults: Vec<Fault>,
    pub last_add_g: BTreeMap<i32, u64>,
    /// the descriptor each thread registered last
    pub last_add_fd: BTreeMap<usize, i32>,
    pub collects: u64,
    pub real: bool,
    pub grace_us: u64,
    /// hand events over one by one and in random order
    pub shuffle: bool,
    pub max_events: usize,
    pub surface_eintr: bool,
    pub waits: u64,
    pub tracked: std::collections::BTreeSet<i32>,
    /// the socket operation each thread is polling (0: none)
    pub cur_q: BTreeMap<usize, usize>,
    /// percentage of system calls of socket operations that fail with an error of their own
    pub inj: u64,
}

/// A system call that a socket operation is about to make: an error to fail it with, or 0.
pub fn net_call(accept: bool) -> (usize, i32) {
    let me = rt::tid();
    if me == rt::NONE || !rt::sim().on {
        return (0, 0);
    }
    let Some(q) = env().cur_q.get(&me).copied() else { return (0, 0) };
    if q == 0 {
        return (0, 0);
    }
    rt::point();
    let e = env();
    if e.inj > 0 && rt::sim().rng.below(100) < e.inj {
        let errs: &[i32] = if accept { &[11, 24, 103] } else { &[11, 11, 4, 12, 105] };
        return (q, *rt::sim().rng.pick(errs));
    }
    (q, 0)
}
/// Its outcome.
pub fn net_result(q: usize, injected: bool, r: isize) {
    if q != 0 {
        crate::ev!(
            "\"k\":\"natt\",\"q\":{},\"r\":{},\"e\":{},\"inj\":{}",
            q,
            r.max(-1),
            if r < 0 { -r } else { 0 },
            injected as u8
        );
        rt::point();
    }
}

struct S(UnsafeCell<Option<Env>>);
unsafe impl Sync for S {}
static ENV: S = S(UnsafeCell::new(None));

#[allow(clippy::mut_from_ref)]
pub fn env() -> &'static mut Env {
    unsafe {
        let e = &mut *ENV.0.get();
        e.get_or_insert_with(|| Env { next_g: 1, ..Env::default() })
    }
}

fn b(x: bool) -> u8 {
    x as u8
}

pub fn poller_new() -> usize {
    rt::point();
    let e = env();
    e.eps.push(Ep { alive: true, ..Ep::default() });
    crate::ev!("\"k\":\"pnew\",\"p\":{}", e.eps.len());
    rt::point();
    e.eps.len() - 1
}

fn take_fault(f: impl Fn(&mut Fault) -> Option<i32>) -> Option<i32> {
    let e = env();
    let mut hit = None;
    let mut i = 0;
    while i < e.faults.len() {
        if let Some(errno) = f(&mut e.faults[i]) {
            hit = Some(errno);
            match &mut e.faults[i] {
                // the following calls fail as well
                Fault::Mod { n, times, .. } if *times > 1 => {
                    *n = 1;
                    *times -= 1;
                }
                _ => {
                    e.faults.remove(i);
                }
            }
            break;
        }
        i += 1;
    }
    hit
}

fn fd_valid(fd: i32) -> bool {
    unsafe { rt::raw_syscall(72, fd as isize, 1, 0, 0, 0, 0) >= 0 }
}

pub fn add(p: usize, fd: i32, key: usize, r: bool, w: bool, pri: bool, mode: Mode) -> Result<(), i32> {
    rt::point();
    let mut res = Ok(());
    if let Some(errno) = take_fault(|f| match f {
        Fault::Add { n, errno } => {
            *n -= 1;
            if *n == 0 {
                Some(*errno)
            } else {
                None
            }
        }
        _ => None,
    }) {
        res = Err(errno);
    } else if !fd_valid(fd) {
        res = Err(9);
    } else if env().eps[p].regs.contains_key(&fd) {
        res = Err(17);
    }
    let e = env();
    let g = e.next_g;
    if res.is_ok() {
        e.next_g += 1;
        e.eps[p].regs.insert(fd, Reg { fd, g, key, r, w, pri, mode, armed: true, seen: 0 });
        e.last_add_g.insert(fd, g);
        e.last_add_fd.insert(rt::tid_or_99(), fd);
        wake_pollers(p);
    }
    let gl = if res.is_ok() { g - g0() } else { 0 };
    crate::ev!("\"k\":\"add\",\"fd\":{},\"g\":{},\"key\":{},\"ok\":{}", fd, gl, key_l(key), b(res.is_ok()));
    rt::point();
    res
}

/// Registration ids are logged relative to the run.
static G0: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn g0() -> u64 {
    G0.load(std::sync::atomic::Ordering::SeqCst)
}
pub fn begin_run() {
    let e = env();
    G0.store(e.next_g - 1, std::sync::atomic::Ordering::SeqCst);
    e.faults.clear();
    e.tracked.clear();
    e.last_add_g.clear();
    e.last_add_fd.clear();
    e.cur_q.clear();
    e.inj = 0;
}
fn key_l(k: usize) -> u64 {
    (k as u64).min(2_000_000_000)
}

pub fn modify(p: usize, fd: i32, key: usize, r: bool, w: bool, pri: bool, mode: Mode) -> Result<(), i32> {
    rt::point();
    let mut res = Ok(());
    if let Some(errno) = take_fault(|f| match f {
        Fault::Mod { fd: ffd, n, errno, .. } if *ffd == fd => {
            *n -= 1;
            if *n == 0 {
                Some(*errno)
            } else {
                None
            }
        }
        _ => None,
    }) {
        res = Err(errno);
    }
    let e = env();
    let mut g = 0;
    match e.eps[p].regs.get_mut(&fd) {
        None => {
            if res.is_ok() {
                res = Err(2)
            }
        }
        Some(reg) => {
            g = reg.g - g0();
            if res.is_ok() {
                reg.key = key;
                reg.r = r;
                reg.w = w;
                reg.pri = pri;
                reg.mode = mode;
                reg.armed = true;
                reg.seen = 0;
            }
        }
    }
    crate::ev!(
        "\"k\":\"mod\",\"fd\":{},\"g\":{},\"key\":{},\"r\":{},\"w\":{},\"ok\":{}",
        fd, g, key_l(key), b(r), b(w), b(res.is_ok())
    );
    wake_pollers(p);
    rt::point();
    res
}

pub fn delete(p: usize, fd: i32) -> Result<(), i32> {
    rt::point();
    let e = env();
    let r = e.eps[p].regs.remove(&fd);
    let g = r.as_ref().map_or(0, |r| r.g - g0().min(r.g));
    crate::ev!("\"k\":\"del\",\"fd\":{},\"g\":{},\"ok\":{}", fd, g, b(r.is_some()));
    rt::point();
    if r.is_some() {
        Ok(())
    } else {
        Err(2)
    }
}

pub fn notify(p: usize) {
    rt::point();
    env().eps[p].notified = true;
    wake_pollers(p);
    rt::point();
}

fn wake_pollers(_p: usize) {
    let s = rt::sim();
    for t in 0..s.th.len() {
        if let St::Poll { .. } = s.th[t].st {
            rt::make_runnable(t);
        }
    }
}

pub fn real_rdy(fd: i32) -> Rdy {
    #[repr(C)]
    struct PollFd {
        fd: i32,
        events: i16,
        revents: i16,
    }
    let mut p = PollFd { fd, events: 1 | 2 | 4 | 0x2000, revents: 0 };
    unsafe {
        rt::raw_syscall(7, &mut p as *mut _ as isize, 1, 0, 0, 0, 0);
    }
    let v = p.revents;
    if v & 0x20 != 0 {
        return Rdy::default();
    }
    Rdy { r: v & (1 | 2 | 0x2000) != 0, w: v & 4 != 0, hup: v & 0x10 != 0, err: v & 8 != 0 }
}

pub fn readiness(fd: i32) -> (Rdy, u64) {
    match env().vfd.get(&fd) {
        Some(x) => *x,
        None => (real_rdy(fd), 0),
    }
}

fn event_of(reg: &Reg) -> Option<(Out, u64)> {
    if !reg.armed {
        return None;
    }
    let (y, gen) = readiness(reg.fd);
    let r = (reg.r && y.r) || y.hup || y.err;
    let w = (reg.w && y.w) || y.hup || y.err;
    if !(r || w) {
        return None;
    }
    if matches!(reg.mode, Mode::Edge | Mode::EdgeOneshot) && reg.seen == gen + 1 {
        return None;
    }
    Some((Out { key: reg.key, r, w, hup: y.hup, err: y.err }, gen))
}

fn any_event(p: usize) -> bool {
    let e = env();
    e.eps[p].notified || e.eps[p].regs.values().any(|r| event_of(r).is_some())
}

/// Lets pollers with real descriptors notice changes made by real system calls.
pub fn refresh_real() {
    if !env().real {
        return;
    }
    let s = rt::sim();
    for t in 0..s.th.len() {
        if let St::Poll { .. } = s.th[t].st {
            for p in 0..env().eps.len() {
                if any_event(p) {
                    rt::make_runnable(t);
                }
            }
        }
    }
}

/// Real descriptors only: before declaring quiescence give the kernel a moment.
pub fn real_grace() -> bool {
    let e = env();
    if !e.real || e.grace_us == 0 {
        return false;
    }
    let mut left = e.grace_us as i64;
    while left > 0 {
        let ts = [0i64, 200_000];
        unsafe {
            rt::raw_syscall(35, ts.as_ptr() as isize, 0, 0, 0, 0, 0);
        }
        left -= 200;
        refresh_real();
        if rt::sim().th.iter().any(|t| t.st == St::Run) {
            return true;
        }
    }
    false
}

/// epoll_wait. `deadline`: absolute virtual nanoseconds, u64::MAX for none.
pub fn wait(p: usize, deadline: u64, zero: bool, cap: usize) -> Result<Vec<Out>, i32> {
    env().waits += 1;
    let me = rt::tid();
    crate::ev!("\"k\":\"wenter\",\"z\":{}", b(zero));
    rt::point();
    rt::gate(1);
    env().eps[p].waiting += 1;
    let mut out: Vec<Out> = Vec::new();
    if let Some(errno) = take_fault(|f| match f {
        Fault::Wait { n, errno } => {
            *n -= 1;
            if *n == 0 {
                Some(*errno)
            } else {
                None
            }
        }
        _ => None,
    }) {
        env().eps[p].waiting -= 1;
        crate::ev!("\"k\":\"wfail\",\"e\":{}", errno);
        rt::point();
        return Err(errno);
    }
    loop {
        if any_event(p) || zero || rt::now_ns() >= deadline {
            break;
        }
        if me == rt::NONE || !rt::sim().on {
            unsafe {
                let ts = [0i64, 1_000_000];
                rt::raw_syscall(35, ts.as_ptr() as isize, 0, 0, 0, 0, 0);
            }
            continue;
        }
        rt::block(St::Poll { deadline });
        rt::gate(2);
    }
    // Collect atomically.
    let e = env();
    let mut fds: Vec<i32> = e.eps[p].regs.keys().copied().collect();
    if e.shuffle {
        rt::sim().rng.shuffle(&mut fds);
    }
    let lim = if e.max_events == 0 { cap } else { cap.min(e.max_events) };
    let mut desc = String::new();
    let had_note = e.eps[p].notified;
    for fd in fds {
        if out.len() >= lim {
            break;
        }
        let reg = e.eps[p].regs.get_mut(&fd).unwrap();
        if let Some((o, gen)) = event_of(reg) {
            match reg.mode {
                Mode::Oneshot | Mode::EdgeOneshot => reg.armed = false,
                _ => {}
            }
            reg.seen = gen + 1;
            if !desc.is_empty() {
                desc.push(',');
            }
            desc.push_str(&format!(
                "{{\"g\":{},\"r\":{},\"w\":{}}}",
                reg.g.saturating_sub(g0()),
                b(o.r),
                b(o.w)
            ));
            out.push(o);
        }
    }
    e.collects += 1;
    e.eps[p].waiting -= 1;
    crate::ev!("\"k\":\"collect\",\"evs\":[{}],\"note\":{}", desc, b(had_note));
    rt::point();
    rt::gate(3);
    // The notification is cleared after collection, as the real backend does.
    env().eps[p].notified = false;
    rt::point();
    Ok(out)
}

/// Changes the readiness of a virtual descriptor.
pub fn set_rdy(fd: i32, f: impl FnOnce(&mut Rdy)) {
    let e = env();
    if let Some((y, gen)) = e.vfd.get_mut(&fd) {
        let old = *y;
        f(y);
        let new = *y;
        if (new.r && !old.r) || (new.w && !old.w) || (new.hup && !old.hup) || (new.err && !old.err) {
            *gen += 1;
        }
    }
    for p in 0..e.eps.len() {
        wake_pollers(p);
    }
}

pub fn new_vfd(fd: i32) {
    env().vfd.insert(fd, (Rdy::default(), 1));
}
pub fn track(fd: i32) {
    env().tracked.insert(fd);
}

/// The kernel drops a closed descriptor from every interest list.
pub fn on_close(fd: i32) {
    let e = env();
    let mut g = 0;
    let mut known = e.vfd.contains_key(&fd) || e.tracked.contains(&fd);
    if known || e.eps.iter().any(|p| p.regs.contains_key(&fd)) {
        rt::point();
    }
    let e = env();
    for p in e.eps.iter_mut() {
        if let Some(r) = p.regs.remove(&fd) {
            g = r.g.saturating_sub(g0());
            known = true;
        }
    }
    e.vfd.remove(&fd);
    e.tracked.remove(&fd);
    if known {
        crate::ev!("\"k\":\"close\",\"fd\":{},\"g\":{}", fd, g);
    }
}

/// Registration currently held for a descriptor (run-relative id), if any.
pub fn reg_of(fd: i32) -> u64 {
    for p in env().eps.iter() {
        if let Some(r) = p.regs.get(&fd) {
            return r.g.saturating_sub(g0());
        }
    }
    0
}
pub fn regs_since() -> Vec<u64> {
    let mut v = Vec::new();
    for p in env().eps.iter() {
        for r in p.regs.values() {
            if r.g > g0() {
                v.push(r.g - g0());
            }
        }
    }
    v
}
