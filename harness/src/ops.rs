//! Operations run through the adapter (C13) on a handle whose inner results are scripted.
use crate::prog::{self, WkSpec};
use crate::world::*;
use async_io::Async;
use futures_io::{AsyncRead, AsyncWrite};
use simrt::{env, ev, rt};
use std::future::Future;
use std::io::{self, IoSlice, IoSliceMut, Read, Write};
use std::os::fd::AsRawFd;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

#[derive(Clone, Debug)]
pub struct OpSpec {
    /// 0 read_with 1 read_with_mut 2 write_with 3 write_with_mut
    /// 4.. on &Async: 4 read 5 readv 6 write 7 writev 8 flush 9 close; 10..15 the same on Async
    pub kind: u8,
    /// results of attempts made while the handle is ready (or of all attempts if not `gated`)
    pub script: Vec<i64>,
    pub gated: bool,
}
impl OpSpec {
    pub fn dir(&self) -> usize {
        match self.kind {
            0 | 1 | 4 | 5 | 10 | 11 => 0,
            _ => 1,
        }
    }
    pub fn is_wait(&self) -> bool {
        self.kind < 4
    }
}

#[derive(Default)]
pub struct OpSlot {
    pub fut: Option<Pin<Box<dyn Future<Output = io::Result<i64>>>>>,
    pub io: Option<Arc<Async<SimIo>>>,
    pub h: usize,
    pub d: usize,
    pub wk: usize,
    pub used: bool,
    pub done: bool,
    pub busy: bool,
    pub script: Vec<i64>,
    pub pos: usize,
    pub gated: bool,
}

/// Which operation the current thread is polling (for the Read/Write impls).
static CUR: [std::sync::atomic::AtomicUsize; 4096] = [const { std::sync::atomic::AtomicUsize::new(0) }; 4096];
fn cur() -> usize {
    CUR[rt::tid_or_99() % 4096].load(std::sync::atomic::Ordering::SeqCst)
}
fn set_cur(o: usize) {
    CUR[rt::tid_or_99() % 4096].store(o, std::sync::atomic::Ordering::SeqCst)
}

pub fn code(e: &io::Error) -> i64 {
    match e.kind() {
        io::ErrorKind::WouldBlock => -1,
        io::ErrorKind::Interrupted => -2,
        io::ErrorKind::BrokenPipe => -3,
        io::ErrorKind::TimedOut => -4,
        _ => -9,
    }
}
fn err_of(c: i64) -> io::Error {
    io::Error::from(match c {
        -1 => io::ErrorKind::WouldBlock,
        -2 => io::ErrorKind::Interrupted,
        -3 => io::ErrorKind::BrokenPipe,
        _ => io::ErrorKind::TimedOut,
    })
}

/// One attempt of the inner operation.
pub fn attempt(o: usize, io: &SimIo) -> io::Result<i64> {
    rt::point();
    let fd = io.as_raw_fd();
    let y = env::readiness(fd).0;
    let os = &mut w().ops[o];
    let rdy = if os.d == 0 { y.rd() } else { y.wr() };
    let r = if os.gated && !rdy {
        -1
    } else {
        let v = os.script.get(os.pos).copied().unwrap_or(7);
        os.pos += 1;
        v
    };
    ev!("\"k\":\"att\",\"o\":{},\"r\":{}", o, r);
    rt::point();
    if r >= 0 {
        Ok(r)
    } else {
        Err(err_of(r))
    }
}
fn attempt_n(io: &SimIo) -> io::Result<usize> {
    let o = cur();
    attempt(o, io).map(|v| v as usize)
}

impl Read for &SimIo {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        attempt_n(self)
    }
    fn read_vectored(&mut self, _: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        attempt_n(self)
    }
}
impl Write for &SimIo {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> {
        attempt_n(self)
    }
    fn write_vectored(&mut self, _: &[IoSlice<'_>]) -> io::Result<usize> {
        attempt_n(self)
    }
    fn flush(&mut self) -> io::Result<()> {
        attempt_n(self).map(|_| ())
    }
}
impl Read for SimIo {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        (&*self).read(b)
    }
    fn read_vectored(&mut self, b: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        (&*self).read_vectored(b)
    }
}
impl Write for SimIo {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        (&*self).write(b)
    }
    fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> io::Result<usize> {
        (&*self).write_vectored(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        (&*self).flush()
    }
}
unsafe impl async_io::IoSafe for SimIo {}

struct PollOp {
    o: usize,
    kind: u8,
    a: *const Async<SimIo>,
    buf: Vec<u8>,
}
impl Future for PollOp {
    type Output = io::Result<i64>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        set_cur(self.o);
        let kind = self.kind;
        let a = self.a;
        let buf = &mut self.buf;
        let (b1, b2) = buf.split_at_mut(3);
        let r = unsafe {
            if kind < 10 {
                let mut x: &Async<SimIo> = &*a;
                let p = Pin::new(&mut x);
                match kind {
                    4 => p.poll_read(cx, b1).map_ok(|n| n as i64),
                    5 => p.poll_read_vectored(cx, &mut [IoSliceMut::new(b1), IoSliceMut::new(b2)]).map_ok(|n| n as i64),
                    6 => p.poll_write(cx, b1).map_ok(|n| n as i64),
                    7 => p.poll_write_vectored(cx, &[IoSlice::new(b1), IoSlice::new(b2)]).map_ok(|n| n as i64),
                    8 => p.poll_flush(cx).map_ok(|_| 0),
                    _ => p.poll_close(cx).map_ok(|_| 0),
                }
            } else {
                // The scheduler serialises all accesses; this op is the only `&mut` user.
                let p = Pin::new(&mut *(a as *mut Async<SimIo>));
                match kind {
                    10 => p.poll_read(cx, b1).map_ok(|n| n as i64),
                    11 => p.poll_read_vectored(cx, &mut [IoSliceMut::new(b1), IoSliceMut::new(b2)]).map_ok(|n| n as i64),
                    12 => p.poll_write(cx, b1).map_ok(|n| n as i64),
                    13 => p.poll_write_vectored(cx, &[IoSlice::new(b1), IoSlice::new(b2)]).map_ok(|n| n as i64),
                    14 => p.poll_flush(cx).map_ok(|_| 0),
                    _ => p.poll_close(cx).map_ok(|_| 0),
                }
            }
        };
        set_cur(0);
        r
    }
}

pub fn create(o: usize, h: usize, spec: &OpSpec) {
    if w().ops[o].used {
        return;
    }
    let Some(a) = w().h[h].io.clone() else { return };
    let p = Arc::as_ptr(&a);
    let fut: Pin<Box<dyn Future<Output = io::Result<i64>>>> = unsafe {
        let r: &'static Async<SimIo> = &*p;
        match spec.kind {
            0 => Box::pin(r.read_with(move |io| attempt(o, io))),
            1 => Box::pin((*(p as *mut Async<SimIo>)).read_with_mut(move |io| attempt(o, io))),
            2 => Box::pin(r.write_with(move |io| attempt(o, io))),
            3 => Box::pin((*(p as *mut Async<SimIo>)).write_with_mut(move |io| attempt(o, io))),
            k => Box::pin(PollOp { o, kind: k, a: p, buf: vec![0; 7] }),
        }
    };
    let script = if matches!(spec.kind, 8 | 9 | 14 | 15) {
        // flush has no value
        spec.script.iter().map(|v| (*v).min(0)).collect()
    } else {
        spec.script.clone()
    };
    ev!(
        "\"k\":\"onew\",\"o\":{},\"h\":{},\"d\":{},\"f\":{},\"kind\":{}",
        o, h, spec.dir(), spec.is_wait() as u8, spec.kind
    );
    let os = &mut w().ops[o];
    os.used = true;
    os.h = h;
    os.d = spec.dir();
    os.script = script;
    os.gated = spec.gated;
    os.fut = Some(fut);
    os.io = Some(a);
}

pub fn poll(o: usize, wk: &WkSpec) {
    if w().ops[o].busy || w().ops[o].done {
        return;
    }
    let Some(mut f) = w().ops[o].fut.take() else { return };
    w().ops[o].busy = true;
    let id = prog::mk_wk_pub(w().ops[o].wk, wk);
    w().ops[o].wk = id;
    let wkr = waker(id);
    ev!("\"k\":\"opc\",\"o\":{},\"wk\":{}", o, id);
    rt::point();
    let r = f.as_mut().poll(&mut Context::from_waker(&wkr));
    drop(wkr);
    rt::point();
    match &r {
        Poll::Pending => ev!("\"k\":\"opr\",\"o\":{},\"p\":1,\"r\":0", o),
        Poll::Ready(Ok(v)) => ev!("\"k\":\"opr\",\"o\":{},\"p\":0,\"r\":{}", o, v),
        Poll::Ready(Err(e)) => ev!("\"k\":\"opr\",\"o\":{},\"p\":0,\"r\":{}", o, code(e)),
    }
    let os = &mut w().ops[o];
    os.done = r.is_ready();
    os.fut = Some(f);
    os.busy = false;
}

pub fn drop_op(o: usize) {
    if w().ops[o].busy {
        return;
    }
    let Some(f) = w().ops[o].fut.take() else { return };
    ev!("\"k\":\"od\",\"o\":{}", o);
    rt::point();
    drop(f);
    rt::point();
    ev!("\"k\":\"odr\",\"o\":{}", o);
    let h = w().ops[o].h;
    if let Some(io) = w().ops[o].io.take() {
        prog::release(io, h);
    }
}
