//! Operations executed by the threads of a run.
use crate::net;
use crate::world::*;
use async_io::{Async, Timer};
use futures_lite::Stream;
use simrt::{env, ev, rt};
use std::future::Future;
use std::os::fd::AsRawFd;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dur {
    Us(u64),
    /// representable, but beyond anything a run reaches
    Far,
    /// overflows `Instant`
    Over,
}
impl Dur {
    pub fn get(self) -> Duration {
        match self {
            Dur::Us(u) => Duration::from_nanos(u * rt::sim().unit),
            Dur::Far => Duration::from_secs(1_000_000_000),
            Dur::Over => Duration::MAX,
        }
    }
    /// As the specification writes it: FAR and OVER are sentinels.
    pub fn log(self) -> i64 {
        match self {
            Dur::Us(u) => u as i64,
            Dur::Far => FAR,
            Dur::Over => FAR + 1,
        }
    }
}

#[derive(Clone, Debug)]
pub enum TSpec {
    Never,
    After(Dur),
    At(i64),
    Interval(Dur),
    IntervalAt(i64, Dur),
}

#[derive(Clone, Debug)]
pub struct WkSpec {
    pub fresh: bool,
    pub kind: WkKind,
    pub todo: Vec<Op>,
}
impl WkSpec {
    pub fn keep() -> WkSpec {
        WkSpec { fresh: false, kind: WkKind::Plain, todo: vec![] }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    New { h: usize, nb: bool },
    /// second registration of the descriptor of a live handle: must fail
    NewDup { h: usize },
    DropH { h: usize },
    Into { h: usize },
    Fut { s: usize, h: usize, d: usize, owned: bool },
    PollFn { s: usize, h: usize, d: usize, wk: WkSpec },
    Poll { s: usize, wk: WkSpec },
    DropS { s: usize },
    Rdy { h: usize, r: Option<bool>, w: Option<bool>, hup: Option<bool> },
    TNew { t: usize, spec: TSpec },
    TPoll { t: usize, wk: WkSpec, stream: bool },
    TSet { t: usize, spec: TSpec },
    TDrop { t: usize },
    TQuery { t: usize },
    Sleep { us: u64 },
    Yield,
    /// Sets and drops that many timers of its own.
    Flood { n: usize },
    WakeB { b: usize },
    /// Yields until that call has polled its future so many times.
    AwaitB { b: usize, n: u32 },
    DoneB { b: usize },
    BlockOn(crate::bo::BoSpec),
    OpNew { o: usize, h: usize, spec: crate::ops::OpSpec },
    OpPoll { o: usize, wk: WkSpec },
    OpDrop { o: usize },
    Fault(env::Fault),
    FaultMod { h: usize, n: u32, times: u32 },
    N(NetOp),
}

#[derive(Clone, Debug)]
pub enum NetOp {
    Pair { fam: net::Fam, a: usize, b: usize, via: u8, bufs: i32 },
    Dgram { fam: net::Fam, h: usize, via: u8 },
    Listener { h: usize, kind: u8, via: u8, full: bool },
    RawClient { h: usize },
    Start { q: usize, h: usize, kind: net::NKind, wk: WkSpec },
    Poll { q: usize, wk: WkSpec },
    Cancel { q: usize },
    Drop { h: usize },
    Rewrap { h: usize, via: u8 },
    Shut { h: usize },
}

pub fn run_ops(ops: &[Op]) {
    for op in ops {
        rt::point();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec(op)));
        if r.is_err() {
            // Reported by the panic hook (or thrown by a waker of ours through a library call).
            ev!("\"k\":\"unwound\"");
        }
    }
}

fn mk_wk(cur: usize, spec: &WkSpec) -> usize {
    if cur == 0 || spec.fresh {
        new_wk(spec.kind, spec.todo.clone())
    } else {
        cur
    }
}

/// Gives up a reference to a handle; the last one ends the handle.
pub fn release(io: Arc<Async<SimIo>>, h: usize) {
    if let Some(a) = Arc::into_inner(io) {
        if w().h[h].into {
            let fd = a.as_raw_fd();
            ev!("\"k\":\"hd\",\"h\":{}", h);
            match a.into_inner() {
                Ok(inner) => {
                    let open = unsafe { rt::raw_syscall(72, fd as isize, 1, 0, 0, 0, 0) >= 0 };
                    ev!(
                        "\"k\":\"into\",\"h\":{},\"same\":{},\"open\":{},\"reg\":{}",
                        h,
                        (inner.as_raw_fd() == fd && inner.h == h) as u8,
                        open as u8,
                        env::reg_of(fd)
                    );
                    drop(inner);
                }
                Err(_) => ev!("\"k\":\"hdr\",\"h\":{}", h),
            }
        } else {
            ev!("\"k\":\"hd\",\"h\":{}", h);
            drop(a);
            ev!("\"k\":\"hdr\",\"h\":{}", h);
        }
    }
}

fn res_name(r: &Poll<std::io::Result<()>>) -> &'static str {
    match r {
        Poll::Pending => "pending",
        Poll::Ready(Ok(())) => "ready",
        Poll::Ready(Err(_)) => "err",
    }
}

pub fn new_timer(spec: &TSpec) -> Timer {
    match spec {
        TSpec::Never => Timer::never(),
        TSpec::After(d) => Timer::after(d.get()),
        TSpec::At(u) => Timer::at(at(*u)),
        TSpec::Interval(p) => Timer::interval(p.get()),
        TSpec::IntervalAt(u, p) => Timer::interval_at(at(*u), p.get()),
    }
}
pub fn tspec_log(spec: &TSpec) -> String {
    match spec {
        TSpec::Never => "\"f\":\"never\",\"d\":0,\"p\":0".into(),
        TSpec::After(d) => format!("\"f\":\"after\",\"d\":{},\"p\":{}", d.log(), FAR + 1),
        TSpec::At(u) => format!("\"f\":\"at\",\"d\":{},\"p\":{}", u, FAR + 1),
        TSpec::Interval(p) => format!("\"f\":\"interval\",\"d\":{},\"p\":{}", p.log(), p.log()),
        TSpec::IntervalAt(u, p) => format!("\"f\":\"interval_at\",\"d\":{},\"p\":{}", u, p.log()),
    }
}

pub fn exec(op: &Op) {
    match op {
        Op::New { h, nb } => {
            let h = *h;
            if w().h[h].ever {
                return;
            }
            w().h[h].ever = true;
            let fd = new_fd();
            let raw = fd.as_raw_fd();
            ev!("\"k\":\"newc\",\"h\":{},\"fd\":{}", h, raw);
            let io = SimIo { h, fd };
            let r = if *nb { Async::new_nonblocking(io) } else { Async::new(io) };
            match r {
                Ok(a) => {
                    let fl = unsafe { rt::raw_syscall(72, raw as isize, 3, 0, 0, 0, 0) };
                    w().h[h].fd = raw;
                    ev!(
                        "\"k\":\"new\",\"h\":{},\"fd\":{},\"g\":{},\"nb\":{}",
                        h, raw, env::reg_of(raw), (*nb || fl & 0o4000 != 0) as u8
                    );
                    w().h[h].io = Some(Arc::new(a));
                }
                Err(_) => ev!("\"k\":\"newerr\",\"h\":{},\"fd\":{},\"dup\":0", h, raw),
            }
        }
        Op::NewDup { h } => {
            let Some(a) = w().h[*h].io.clone() else { return };
            let fd = a.get_ref().fd.clone();
            let raw = fd.as_raw_fd();
            ev!("\"k\":\"dupc\",\"h\":{},\"fd\":{}", h, raw);
            let r = Async::new(SimIo { h: *h, fd });
            ev!("\"k\":\"dup\",\"h\":{},\"fd\":{},\"ok\":{}", h, raw, r.is_ok() as u8);
            drop(r);
            release(a, *h);
        }
        Op::DropH { h } | Op::Into { h } => {
            if let Some(a) = w().h[*h].io.take() {
                w().h[*h].dying = true;
                w().h[*h].into = matches!(op, Op::Into { .. });
                release(a, *h);
            }
        }
        Op::Fut { s, h, d, owned } => {
            if w().s[*s].used {
                return;
            }
            let Some(a) = w().h[*h].io.clone() else { return };
            w().s[*s].used = true;
            let fut: FutIo = unsafe {
                if *owned {
                    if *d == 0 {
                        Box::pin(a.clone().readable_owned())
                    } else {
                        Box::pin(a.clone().writable_owned())
                    }
                } else {
                    // The slot keeps the Arc alive for as long as the future exists.
                    let r: &'static Async<SimIo> = &*(Arc::as_ptr(&a));
                    if *d == 0 {
                        Box::pin(r.readable())
                    } else {
                        Box::pin(r.writable())
                    }
                }
            };
            ev!("\"k\":\"slot\",\"s\":{},\"h\":{},\"d\":{},\"f\":1", s, h, d);
            let sl = &mut w().s[*s];
            sl.h = *h;
            sl.d = *d;
            sl.io = Some(a);
            sl.fut = Some(fut);
        }
        Op::Poll { s, wk } => {
            let s = *s;
            if w().s[s].pollfn {
                let (h, d) = (w().s[s].h, w().s[s].d);
                return exec(&Op::PollFn { s, h, d, wk: wk.clone() });
            }
            if w().s[s].busy || w().s[s].done {
                return;
            }
            let Some(mut f) = w().s[s].fut.take() else { return };
            w().s[s].busy = true;
            let id = mk_wk(w().s[s].wk, wk);
            w().s[s].wk = id;
            let wkr = waker(id);
            ev!("\"k\":\"pc\",\"s\":{},\"wk\":{}", s, id);
            rt::point();
            let r = f.as_mut().poll(&mut Context::from_waker(&wkr));
            drop(wkr);
            rt::point();
            ev!("\"k\":\"pr\",\"s\":{},\"r\":\"{}\"", s, res_name(&r));
            let sl = &mut w().s[s];
            sl.pending = r.is_pending();
            sl.done = matches!(r, Poll::Ready(Ok(())));
            sl.erred = matches!(r, Poll::Ready(Err(_)));
            sl.fut = Some(f);
            sl.busy = false;
        }
        Op::PollFn { s, h, d, wk } => {
            let s = *s;
            if w().s[s].busy || (w().s[s].used && !w().s[s].pollfn) {
                return;
            }
            if w().s[s].used && (w().s[s].h, w().s[s].d) != (*h, *d) {
                return;
            }
            let Some(a) = w().h[*h].io.clone() else { return };
            // A displaced waker is woken by the displacing poll, inside that call.
            if w().h[*h].sticky[*d] {
                return release(a, *h);
            }
            let mut wk = wk.clone();
            if wk.kind == WkKind::Reenter {
                if w().h[*h].pf[*d] == 0 {
                    w().h[*h].sticky[*d] = true;
                } else {
                    wk.kind = WkKind::Panic;
                }
            }
            w().h[*h].pf[*d] += 1;
            let wk = &wk;
            if !w().s[s].used {
                w().s[s].used = true;
                w().s[s].pollfn = true;
                w().s[s].h = *h;
                w().s[s].d = *d;
                ev!("\"k\":\"slot\",\"s\":{},\"h\":{},\"d\":{},\"f\":0", s, h, d);
            }
            w().s[s].busy = true;
            let id = mk_wk(w().s[s].wk, wk);
            w().s[s].wk = id;
            let wkr = waker(id);
            ev!("\"k\":\"pc\",\"s\":{},\"wk\":{}", s, id);
            rt::point();
            let mut cx = Context::from_waker(&wkr);
            let r = if *d == 0 { a.poll_readable(&mut cx) } else { a.poll_writable(&mut cx) };
            drop(wkr);
            rt::point();
            ev!("\"k\":\"pr\",\"s\":{},\"r\":\"{}\"", s, res_name(&r));
            w().s[s].pending = r.is_pending();
            w().s[s].erred = matches!(r, Poll::Ready(Err(_)));
            w().s[s].busy = false;
            release(a, *h);
        }
        Op::DropS { s } => {
            let s = *s;
            if w().s[s].busy || w().s[s].pollfn {
                return;
            }
            let Some(f) = w().s[s].fut.take() else { return };
            w().s[s].pending = false;
            ev!("\"k\":\"sd\",\"s\":{}", s);
            rt::point();
            drop(f);
            rt::point();
            ev!("\"k\":\"sdr\",\"s\":{}", s);
            let h = w().s[s].h;
            if let Some(io) = w().s[s].io.take() {
                release(io, h);
            }
        }
        Op::Rdy { h, r, w: wr, hup } => {
            let hh = &w().h[*h];
            if hh.fd == 0 || hh.io.is_none() {
                return;
            }
            set_rdy(*h, *r, *wr, *hup);
            rt::point();
        }
        Op::TNew { t, spec } => {
            if w().t[*t].used {
                return;
            }
            w().t[*t].used = true;
            let c = rt::rel_us();
            let tm = new_timer(spec);
            ev!("\"k\":\"tnew\",\"tm\":{},{},\"c\":{}", t, tspec_log(spec), c);
            w().t[*t].t = Some(Box::new(tm));
        }
        Op::TPoll { t, wk, stream } => {
            let t = *t;
            let Some(mut tm) = w().t[t].t.take() else { return };
            let id = mk_wk(w().t[t].wk, wk);
            w().t[t].wk = id;
            let wkr = waker(id);
            ev!("\"k\":\"tpc\",\"tm\":{},\"wk\":{}", t, id);
            rt::point();
            let mut cx = Context::from_waker(&wkr);
            let r = if *stream {
                match Pin::new(&mut *tm).poll_next(&mut cx) {
                    Poll::Ready(Some(i)) => Poll::Ready(Some(i)),
                    Poll::Ready(None) => Poll::Ready(None),
                    Poll::Pending => Poll::Pending,
                }
            } else {
                Pin::new(&mut *tm).poll(&mut cx).map(Some)
            };
            drop(wkr);
            rt::point();
            match r {
                Poll::Ready(Some(i)) => {
                    let (us, ns) = rel(i);
                    ev!("\"k\":\"tpr\",\"tm\":{},\"r\":\"ready\",\"v\":{},\"vn\":{}", t, us, ns)
                }
                Poll::Ready(None) => ev!("\"k\":\"tpr\",\"tm\":{},\"r\":\"end\",\"v\":0,\"vn\":0", t),
                Poll::Pending => ev!("\"k\":\"tpr\",\"tm\":{},\"r\":\"pending\",\"v\":0,\"vn\":0", t),
            }
            w().t[t].pending = r.is_pending();
            w().t[t].t = Some(tm);
        }
        Op::TSet { t, spec } => {
            let t = *t;
            let Some(mut tm) = w().t[t].t.take() else { return };
            ev!("\"k\":\"tsc\",\"tm\":{}", t);
            let c = rt::rel_us();
            rt::point();
            match spec {
                TSpec::After(d) => tm.set_after(d.get()),
                TSpec::At(u) => tm.set_at(at(*u)),
                TSpec::Interval(p) => tm.set_interval(p.get()),
                TSpec::IntervalAt(u, p) => tm.set_interval_at(at(*u), p.get()),
                TSpec::Never => *tm = Timer::never(),
            }
            ev!("\"k\":\"tsr\",\"tm\":{},{},\"c\":{}", t, tspec_log(spec), c);
            w().t[t].t = Some(tm);
        }
        Op::TDrop { t } => {
            let Some(tm) = w().t[*t].t.take() else { return };
            w().t[*t].pending = false;
            ev!("\"k\":\"td\",\"tm\":{}", t);
            rt::point();
            drop(tm);
            rt::point();
            ev!("\"k\":\"tdr\",\"tm\":{}", t);
        }
        Op::TQuery { t } => {
            let Some(tm) = w().t[*t].t.take() else { return };
            let r = tm.will_fire();
            ev!("\"k\":\"wf\",\"tm\":{},\"r\":{}", t, r as u8);
            w().t[*t].t = Some(tm);
        }
        Op::Sleep { us } => rt::sleep_us(*us),
        Op::Yield => rt::yield_now(),
        Op::Flood { n } => {
            let cx = &mut std::task::Context::from_waker(std::task::Waker::noop());
            for _ in 0..*n {
                let mut t = async_io::Timer::after(std::time::Duration::from_secs(3600));
                assert!(std::pin::Pin::new(&mut t).poll(cx).is_pending());
            }
        }
        Op::AwaitB { b, n } => {
            for _ in 0..200 {
                if w().b[*b].polls >= *n {
                    break;
                }
                rt::yield_now();
            }
        }
        Op::WakeB { b } => {
            if let Some(wk) = w().b[*b].waker.clone() {
                wake_block_on(*b, wk);
            }
        }
        Op::DoneB { b } => {
            w().b[*b].done = true;
            if let Some(wk) = w().b[*b].waker.clone() {
                wake_block_on(*b, wk);
            }
        }
        Op::BlockOn(spec) => crate::bo::run(spec),
        Op::OpNew { o, h, spec } => crate::ops::create(*o, *h, spec),
        Op::OpPoll { o, wk } => crate::ops::poll(*o, wk),
        Op::OpDrop { o } => crate::ops::drop_op(*o),
        Op::N(n) => match n {
            NetOp::Pair { fam, a, b, via, bufs } => net::make_pair(*fam, *a, *b, *via, *bufs),
            NetOp::Dgram { fam, h, via } => net::make_dgram(*fam, *h, *via),
            NetOp::Listener { h, kind, via, full } => net::make_listener(*h, *kind, *via, *full),
            NetOp::RawClient { h } => net::raw_client(*h),
            NetOp::Start { q, h, kind, wk } => {
                if !w().net.q[*q].active {
                    net::start(*q, *h, kind);
                    net::poll(*q, wk);
                }
            }
            NetOp::Poll { q, wk } => net::poll(*q, wk),
            NetOp::Cancel { q } => net::cancel(*q),
            NetOp::Drop { h } => net::drop_h(*h),
            NetOp::Rewrap { h, via } => net::rewrap(*h, *via),
            NetOp::Shut { h } => net::shut(*h),
        },
        Op::Fault(f) => env::env().faults.push(*f),
        Op::FaultMod { h, n, times } => {
            let hh = &w().h[*h];
            if hh.io.is_some() {
                env::env().faults.push(env::Fault::Mod { fd: hh.fd, n: *n, errno: 12, times: *times });
            }
        }
    }
}

pub fn set_rdy(h: usize, r: Option<bool>, wr: Option<bool>, hup: Option<bool>) {
    let fd = w().h[h].fd;
    env::set_rdy(fd, |y| {
        if let Some(x) = r {
            y.r = x
        }
        if let Some(x) = wr {
            y.w = x
        }
        if let Some(x) = hup {
            y.hup = x
        }
    });
    let y = env::readiness(fd).0;
    ev!(
        "\"k\":\"rdy\",\"h\":{},\"r\":{},\"w\":{}",
        h, y.rd() as u8, y.wr() as u8
    );
}

pub fn mk_wk_pub(cur: usize, spec: &WkSpec) -> usize {
    mk_wk(cur, spec)
}
