//! The shared state of a run: handles, waits, timers, wakers, block_on calls. Only the thread
//! holding the baton touches it, and no reference into it is kept across a library call.
use async_io::{Async, Timer};
use simrt::{env, ev, rt};
use std::cell::UnsafeCell;
use std::future::Future;
use std::os::fd::{AsFd, AsRawFd, BorrowedFd, FromRawFd, OwnedFd};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{RawWaker, RawWakerVTable, Waker};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ wakers
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum WkKind {
    Plain,
    Panic,
    Reenter,
}

pub struct Wk {
    pub id: usize,
    pub kind: WkKind,
    pub todo: UnsafeCell<Vec<crate::prog::Op>>,
    /// forward to a block_on waker
    pub fwd: UnsafeCell<Option<(usize, Waker)>>,
}
unsafe impl Send for Wk {}
unsafe impl Sync for Wk {}

static VT: RawWakerVTable = RawWakerVTable::new(wk_clone, wk_wake, wk_wake_ref, wk_drop);
unsafe fn wk_clone(p: *const ()) -> RawWaker {
    Arc::increment_strong_count(p as *const Wk);
    RawWaker::new(p, &VT)
}
unsafe fn wk_wake(p: *const ()) {
    let a = Arc::from_raw(p as *const Wk);
    fire(&a);
}
unsafe fn wk_wake_ref(p: *const ()) {
    let a = std::mem::ManuallyDrop::new(Arc::from_raw(p as *const Wk));
    fire(&a);
}
unsafe fn wk_drop(p: *const ()) {
    drop(Arc::from_raw(p as *const Wk));
}
fn fire(a: &Arc<Wk>) {
    rt::point();
    ev!("\"k\":\"wake\",\"wk\":{}", a.id);
    w().woken.push(a.id);
    if let Some((b, inner)) = unsafe { (*a.fwd.get()).clone() } {
        wake_block_on(b, inner);
    }
    match a.kind {
        WkKind::Plain => {}
        WkKind::Panic => std::panic::resume_unwind(Box::new("waker")),
        WkKind::Reenter => {
            let ops = unsafe { std::mem::take(&mut *a.todo.get()) };
            for op in ops {
                crate::prog::exec(&op);
            }
        }
    }
    rt::point();
}
pub fn wake_block_on(b: usize, wk: Waker) {
    ev!("\"k\":\"wbs\",\"b\":{}", b);
    rt::point();
    wk.wake();
    ev!("\"k\":\"wbe\",\"b\":{}", b);
}

/// Makes a fresh waker identity.
pub fn new_wk(kind: WkKind, todo: Vec<crate::prog::Op>) -> usize {
    let id = w().wakers.len();
    w().wakers.push(Arc::new(Wk {
        id,
        kind,
        todo: UnsafeCell::new(todo),
        fwd: UnsafeCell::new(None),
    }));
    id
}
pub fn waker(id: usize) -> Waker {
    let a = w().wakers[id].clone();
    unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(a) as *const (), &VT)) }
}
/// Ids of wakers the library still references.
pub fn live_wakers() -> Vec<usize> {
    w().wakers
        .iter()
        .skip(1)
        .filter(|a| Arc::strong_count(a) > 1)
        .map(|a| a.id)
        .collect()
}

// ------------------------------------------------------------------ I/O handles
/// A descriptor (a real eventfd, never used) whose readiness is virtual.
pub struct SimIo {
    pub h: usize,
    pub fd: Arc<OwnedFd>,
}
impl AsFd for SimIo {
    fn as_fd(&self) -> BorrowedFd<'_> {
        self.fd.as_fd()
    }
}
impl AsRawFd for SimIo {
    fn as_raw_fd(&self) -> i32 {
        self.fd.as_raw_fd()
    }
}
pub fn new_fd() -> Arc<OwnedFd> {
    let fd = unsafe { rt::raw_syscall(290, 0, 0o2000000, 0, 0, 0, 0) } as i32;
    assert!(fd >= 0);
    env::new_vfd(fd);
    Arc::new(unsafe { OwnedFd::from_raw_fd(fd) })
}

#[derive(Default)]
pub struct H {
    pub io: Option<Arc<Async<SimIo>>>,
    pub fd: i32,
    pub ever: bool,
    /// set when the run has decided that this handle is going away
    pub dying: bool,
    pub into: bool,
    /// poll-style waits so far, per direction
    pub pf: [u32; 2],
    /// a waker that calls back into the library sits in the poll-style slot: nobody may displace
    /// it, as displacing wakes it inside the displacing call
    pub sticky: [bool; 2],
}

pub type FutIo = Pin<Box<dyn Future<Output = std::io::Result<()>> + Send>>;

#[derive(Default)]
pub struct Slot {
    pub fut: Option<FutIo>,
    pub io: Option<Arc<Async<SimIo>>>,
    pub h: usize,
    pub d: usize,
    pub wk: usize,
    pub pollfn: bool,
    pub busy: bool,
    pub used: bool,
    pub pending: bool,
    pub done: bool,
    /// the last poll reported an error
    pub erred: bool,
}

#[derive(Default)]
pub struct Tm {
    pub t: Option<Box<Timer>>,
    pub wk: usize,
    pub used: bool,
    pub pending: bool,
}

pub struct BoShared {
    pub waker: Option<Waker>,
    pub done: bool,
    pub polls: u32,
    pub active: bool,
    pub thread: usize,
}
impl Default for BoShared {
    fn default() -> Self {
        BoShared { waker: None, done: false, polls: 0, active: false, thread: 99 }
    }
}

#[derive(Default)]
pub struct World {
    pub wakers: Vec<Arc<Wk>>,
    pub woken: Vec<usize>,
    pub h: Vec<H>,
    pub s: Vec<Slot>,
    pub t: Vec<Tm>,
    pub b: Vec<BoShared>,
    pub badw: u64,
    pub bo_next: usize,
    pub ops: Vec<crate::ops::OpSlot>,
    pub net: crate::net::Net,
    pub lib_threads: usize,
    pub exhausted: bool,
}

struct SW(UnsafeCell<Option<World>>);
unsafe impl Sync for SW {}
static WORLD: SW = SW(UnsafeCell::new(None));
#[allow(clippy::mut_from_ref)]
pub fn w() -> &'static mut World {
    unsafe { (*WORLD.0.get()).get_or_insert_with(World::default) }
}
pub fn reset(nh: usize, ns: usize, nt: usize, nb: usize, no: usize) {
    let mut n = World::default();
    n.h.resize_with(nh + 1, H::default);
    n.s.resize_with(ns + 1, Slot::default);
    n.t.resize_with(nt + 1, Tm::default);
    n.b.resize_with(nb + 1, BoShared::default);
    n.ops.resize_with(no + 1, crate::ops::OpSlot::default);
    n.wakers.reserve(4096);
    n.woken.reserve(4096);
    unsafe { *WORLD.0.get() = Some(n) };
    new_wk(WkKind::Plain, vec![]); // id 0 is unused
}

// ------------------------------------------------------------------ time
static ANCHOR: std::sync::OnceLock<(Instant, u64)> = std::sync::OnceLock::new();
pub fn anchor() {
    let i = Instant::now();
    ANCHOR.get_or_init(|| (i, rt::now_ns()));
}
pub const FAR: i64 = 2_000_000_000;
/// Microseconds relative to the start of the run and the nanosecond remainder.
pub fn rel(i: Instant) -> (i64, i64) {
    let (a, n0) = *ANCHOR.get().unwrap();
    let base = rt::sim().base as i128;
    let abs = if i >= a {
        n0 as i128 + i.duration_since(a).as_nanos() as i128
    } else {
        n0 as i128 - a.duration_since(i).as_nanos() as i128
    };
    let r = abs - base;
    let us = r.div_euclid(rt::sim().unit as i128);
    let ns = r.rem_euclid(rt::sim().unit as i128) as i64;
    ((us.min(FAR as i128).max(-(FAR as i128))) as i64, ns)
}
/// The instant `us` microseconds after the start of the run.
pub fn at(us: i64) -> Instant {
    let (a, n0) = *ANCHOR.get().unwrap();
    let base = rt::sim().base;
    let d = base as i64 - n0 as i64 + us * rt::sim().unit as i64;
    if d >= 0 {
        a + Duration::from_nanos(d as u64)
    } else {
        a - Duration::from_nanos((-d) as u64)
    }
}

pub fn idle_event(from: u64) {
    let lw = live_wakers().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let rg = env::regs_since().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    ev!("\"k\":\"idle\",\"from\":{},\"live\":[{}],\"regs\":[{}]", from, lw, rg);
}
