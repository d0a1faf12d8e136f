//! Operations on real sockets and pipes (C14, C15). Readiness comes from the kernel; the
//! scheduler, the clock and the poller stay under control.
use crate::prog::{self, WkSpec};
use crate::world::*;
use async_io::Async;
use futures_io::{AsyncRead, AsyncWrite};
use futures_lite::Stream;
use simrt::{env, ev, rt};
use std::fs::File;
use std::future::Future;
use std::io::{self, IoSlice, IoSliceMut, Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::os::fd::{AsRawFd, FromRawFd, IntoRawFd, OwnedFd};
use std::os::unix::net::{UnixDatagram, UnixListener, UnixStream};
use std::path::PathBuf;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

// ------------------------------------------------------------------ endpoints
pub enum Ep {
    Tcp(Arc<Async<TcpStream>>),
    Unix(Arc<Async<UnixStream>>),
    File(Arc<Async<File>>),
    Udp(Arc<Async<UdpSocket>>),
    Udg(Arc<Async<UnixDatagram>>),
    TcpL(Arc<Async<TcpListener>>),
    UnixL(Arc<Async<UnixListener>>),
}
use Ep::*;
impl Clone for Ep {
    fn clone(&self) -> Ep {
        match self {
            Tcp(a) => Tcp(a.clone()),
            Unix(a) => Unix(a.clone()),
            File(a) => File(a.clone()),
            Udp(a) => Udp(a.clone()),
            Udg(a) => Udg(a.clone()),
            TcpL(a) => TcpL(a.clone()),
            UnixL(a) => UnixL(a.clone()),
        }
    }
}
impl Ep {
    pub fn fd(&self) -> i32 {
        match self {
            Tcp(a) => a.as_raw_fd(),
            Unix(a) => a.as_raw_fd(),
            File(a) => a.as_raw_fd(),
            Udp(a) => a.as_raw_fd(),
            Udg(a) => a.as_raw_fd(),
            TcpL(a) => a.as_raw_fd(),
            UnixL(a) => a.as_raw_fd(),
        }
    }
}

#[derive(Default)]
pub struct NetEp {
    pub ep: Option<Ep>,
    pub peer: usize,
    pub stream: bool,
    pub dgram: bool,
    pub listener: bool,
    pub busy: [bool; 2],
    pub leaving: bool,
    /// the writer of this endpoint's incoming channel has stopped
    pub shut: bool,
    pub eof: bool,
    pub incoming: Option<Pin<Box<dyn Stream<Item = io::Result<Ep>> + Send>>>,
    pub backlog0: bool,
    /// port or name of a listener or datagram socket
    pub addr: Option<SocketAddr>,
    pub name: String,
    pub sent: usize,
    pub got: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fam {
    Tcp4,
    Tcp6,
    UnixPair,
    Pipe,
    Udp4,
    Udp6,
    UdgPair,
    UdgPath,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Target {
    /// listener h
    L(usize),
    RefusedTcp4,
    RefusedTcp6,
    MissingPath,
    DeadPath,
    MissingAbstract,
    /// a path too long for a socket address
    LongPath,
}

#[derive(Clone, Debug)]
pub enum NKind {
    Read { own: bool, vec: bool, cap: usize },
    Write { own: bool, vec: bool, runs: Vec<(u8, usize)> },
    Flush { own: bool },
    Close { own: bool },
    Peek { cap: usize },
    Recv { cap: usize },
    RecvFrom { cap: usize },
    DPeek { cap: usize },
    DPeekFrom { cap: usize },
    Send { runs: Vec<(u8, usize)> },
    SendTo { to: usize, runs: Vec<(u8, usize)> },
    Accept { h2: usize },
    Incoming { h2: usize },
    Connect { h2: usize, to: Target },
}
impl NKind {
    fn name(&self) -> &'static str {
        match self {
            NKind::Read { .. } => "rd",
            NKind::Peek { .. } => "pk",
            NKind::Write { .. } => "wr",
            NKind::Flush { .. } | NKind::Close { .. } => "fl",
            NKind::Recv { .. } | NKind::RecvFrom { .. } => "rv",
            NKind::DPeek { .. } | NKind::DPeekFrom { .. } => "pv",
            NKind::Send { .. } | NKind::SendTo { .. } => "sn",
            NKind::Accept { .. } | NKind::Incoming { .. } => "ac",
            NKind::Connect { .. } => "cn",
        }
    }
    fn dir(&self) -> usize {
        match self.name() {
            "rd" | "pk" | "rv" | "pv" | "ac" => 0,
            _ => 1,
        }
    }
    /// a future that waits on its own account (as opposed to a poll function)
    fn is_fut(&self) -> bool {
        !matches!(
            self,
            NKind::Read { .. } | NKind::Write { .. } | NKind::Flush { .. } | NKind::Close { .. }
        )
    }
}

pub enum NOut {
    N(usize, Vec<u8>, i64),
    Acc(Ep, i64),
    Conn(Ep),
}
type NRes = Result<NOut, io::Error>;

#[derive(Default)]
pub struct NSlot {
    pub fut: Option<Pin<Box<dyn Future<Output = NRes>>>>,
    pub hold: Option<Ep>,
    pub kind: Option<NKind>,
    pub h: usize,
    pub wk: usize,
    pub busy: bool,
    pub active: bool,
    /// descriptor of a connecting socket
    pub cfd: i32,
    pub gen: u64,
}

#[derive(Default)]
pub struct Net {
    pub e: Vec<NetEp>,
    pub q: Vec<NSlot>,
    pub on: bool,
    pub msg: u8,
    pub keep: Vec<OwnedFd>,
    pub refused4: Option<SocketAddr>,
    pub refused6: Option<SocketAddr>,
    pub run: u64,
}

// ------------------------------------------------------------------ raw system calls
unsafe fn sys(n: isize, a: isize, b: isize, c: isize, d: isize, e: isize) -> isize {
    rt::raw_syscall(n, a, b, c, d, e, 0)
}
fn set_buf(fd: i32, opt: isize, v: i32) {
    unsafe {
        sys(54, fd as isize, 1, opt, &v as *const i32 as isize, 4);
    }
}
fn nonblocking(fd: i32) -> bool {
    unsafe { sys(72, fd as isize, 3, 0, 0, 0) & 0o4000 != 0 }
}
fn cloexec(fd: i32) -> bool {
    unsafe { sys(72, fd as isize, 1, 0, 0, 0) & 1 != 0 }
}
fn listen(fd: i32, n: i32) {
    unsafe {
        sys(50, fd as isize, n as isize, 0, 0, 0);
    }
}
fn v6_ok() -> bool {
    static OK: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *OK.get_or_init(|| TcpListener::bind("[::1]:0").is_ok())
}
fn local(v6: bool) -> SocketAddr {
    if v6 && v6_ok() {
        "[::1]:0".parse().unwrap()
    } else {
        "127.0.0.1:0".parse().unwrap()
    }
}

// ------------------------------------------------------------------ bookkeeping
/// Registers `ep` as handle `h` and reports it.
fn install(h: usize, ep: Ep, how: &str) {
    let fd = ep.fd();
    let nb = nonblocking(fd);
    env::track(fd);
    let (s, d, l) = match ep {
        Tcp(_) | Unix(_) | File(_) => (true, false, false),
        Udp(_) | Udg(_) => (false, true, false),
        _ => (false, false, true),
    };
    let e = &mut w().net.e[h];
    e.stream = s;
    e.dgram = d;
    e.listener = l;
    e.ep = Some(ep);
    ev!(
        "\"k\":\"new\",\"h\":{},\"fd\":{},\"g\":{},\"nb\":{},\"how\":\"{}\"",
        h, fd, env::reg_of(fd), nb as u8, how
    );
    if how == "connect" {
        ev!("\"k\":\"hcx\",\"h\":{},\"cx\":{}", h, cloexec(fd) as u8);
    }
    if !nb {
        // Reported; a blocking call must not stop the whole run.
        unsafe {
            let fl = sys(72, fd as isize, 3, 0, 0, 0);
            sys(72, fd as isize, 4, fl | 0o4000, 0, 0);
        }
    }
}
fn declare(h: usize, kind: &str, peer: usize) {
    w().net.e[h].peer = peer;
    ev!("\"k\":\"ep\",\"h\":{},\"c\":\"{}\",\"peer\":{}", h, kind, peer);
}
fn bad_new(h: usize, e: &io::Error) {
    ev!("\"k\":\"newerr\",\"h\":{},\"fd\":0,\"dup\":0,\"e\":{}", h, e.raw_os_error().unwrap_or(0));
}

fn name_of(h: usize) -> String {
    format!("s{}.{}.{}", std::process::id(), w().net.run, h)
}
pub fn begin(nh: usize, nq: usize, on: bool) {
    static RUN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let n = &mut w().net;
    n.e.resize_with(nh + 1, NetEp::default);
    n.q.resize_with(nq + 1, NSlot::default);
    n.on = on;
    n.run = RUN.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
}

// ------------------------------------------------------------------ creation
fn conv<T>(x: T, via: u8) -> io::Result<Async<T>>
where
    T: std::os::fd::AsFd + From<OwnedFd> + Into<OwnedFd> + TryIntoAsync,
{
    match via {
        0 => Async::new(x),
        1 => x.try_async(),
        _ => Async::<T>::try_from(Into::<OwnedFd>::into(x)),
    }
}
pub trait TryIntoAsync: Sized {
    fn try_async(self) -> io::Result<Async<Self>>;
}
macro_rules! tia {
    ($($t:ty),*) => { $(impl TryIntoAsync for $t {
        fn try_async(self) -> io::Result<Async<Self>> { Async::try_from(self) }
    })* };
}
tia!(TcpStream, TcpListener, UdpSocket, UnixStream, UnixListener, UnixDatagram);
impl TryIntoAsync for File {
    fn try_async(self) -> io::Result<Async<Self>> {
        Async::new(self)
    }
}
macro_rules! put {
    ($h:expr, $v:path, $r:expr, $how:expr) => {
        match $r {
            Ok(a) => install($h, $v(Arc::new(a)), $how),
            Err(e) => bad_new($h, &e),
        }
    };
}

/// A connected pair of stream or datagram endpoints (a pipe writes from a to b only).
pub fn make_pair(fam: Fam, a: usize, b: usize, via: u8, bufs: i32) {
    let _quiet = rt::quiet();
    let r = || -> io::Result<()> {
        match fam {
            Fam::Tcp4 | Fam::Tcp6 => {
                let l = TcpListener::bind(local(fam == Fam::Tcp6))?;
                let x = TcpStream::connect(l.local_addr()?)?;
                let (y, _) = l.accept()?;
                if bufs > 0 {
                    set_buf(x.as_raw_fd(), 7, bufs);
                    set_buf(y.as_raw_fd(), 7, bufs);
                }
                declare(a, "s", b);
                declare(b, "s", a);
                put!(a, Tcp, conv(x, via), "conversion");
                put!(b, Tcp, conv(y, via), "conversion");
            }
            Fam::UnixPair => {
                declare(a, "s", b);
                declare(b, "s", a);
                if via == 3 || via == 0 {
                    match Async::<UnixStream>::pair() {
                        Ok((x, y)) => {
                            install(a, Unix(Arc::new(x)), "pair");
                            install(b, Unix(Arc::new(y)), "pair");
                        }
                        Err(e) => bad_new(a, &e),
                    }
                } else {
                    let (x, y) = UnixStream::pair()?;
                    put!(a, Unix, conv(x, via), "conversion");
                    put!(b, Unix, conv(y, via), "conversion");
                }
                if bufs > 0 {
                    for h in [a, b] {
                        if let Some(e) = &w().net.e[h].ep {
                            set_buf(e.fd(), 7, bufs);
                        }
                    }
                }
            }
            Fam::Pipe => {
                let mut p = [0i32; 2];
                if unsafe { sys(293, p.as_mut_ptr() as isize, 0o2000000, 0, 0, 0) } < 0 {
                    return Err(io::Error::from_raw_os_error(24));
                }
                declare(a, "s", b);
                declare(b, "s", a);
                let (rd, wr) = unsafe { (OwnedFd::from_raw_fd(p[0]), OwnedFd::from_raw_fd(p[1])) };
                if bufs > 0 {
                    unsafe {
                        sys(72, wr.as_raw_fd() as isize, 1031, bufs as isize, 0, 0);
                    }
                }
                put!(a, Ep::File, conv(File::from(wr), via), "conversion");
                put!(b, Ep::File, conv(File::from(rd), via), "conversion");
            }
            Fam::Udp4 | Fam::Udp6 => {
                let v6 = fam == Fam::Udp6;
                for h in [a, b] {
                    declare(h, "d", if h == a { b } else { a });
                    put!(h, Udp, Async::<UdpSocket>::bind(local(v6)), "bind");
                }
                let (Some(Udp(x)), Some(Udp(y))) = (&w().net.e[a].ep, &w().net.e[b].ep) else { return Ok(()) };
                x.get_ref().connect(y.get_ref().local_addr()?)?;
                y.get_ref().connect(x.get_ref().local_addr()?)?;
                w().net.e[a].addr = Some(x.get_ref().local_addr()?);
                w().net.e[b].addr = Some(y.get_ref().local_addr()?);
            }
            Fam::UdgPair | Fam::UdgPath => {
                declare(a, "d", b);
                declare(b, "d", a);
                match Async::<UnixDatagram>::pair() {
                    Ok((x, y)) => {
                        install(a, Udg(Arc::new(x)), "pair");
                        install(b, Udg(Arc::new(y)), "pair");
                    }
                    Err(e) => bad_new(a, &e),
                }
            }
        }
        Ok(())
    };
    if let Err(e) = r() {
        tool(&format!("pair {fam:?}: {e}"));
    }
}

/// An unconnected datagram socket.
pub fn make_dgram(fam: Fam, h: usize, via: u8) {
    let _quiet = rt::quiet();
    let r = || -> io::Result<()> {
        declare(h, "d", 0);
        match fam {
            Fam::Udp4 | Fam::Udp6 => {
                let a = local(fam == Fam::Udp6);
                if via == 0 {
                    put!(h, Udp, Async::<UdpSocket>::bind(a), "bind");
                } else {
                    put!(h, Udp, conv(UdpSocket::bind(a)?, via), "conversion");
                }
                if let Some(Udp(x)) = &w().net.e[h].ep {
                    w().net.e[h].addr = Some(x.get_ref().local_addr()?);
                }
            }
            _ => {
                let n = name_of(h);
                let _ = std::fs::remove_file(&n);
                match via {
                    0 => put!(h, Udg, Async::<UnixDatagram>::bind(&n), "bind"),
                    3 => put!(h, Udg, Async::<UnixDatagram>::unbound(), "unbound"),
                    _ => put!(h, Udg, conv(UnixDatagram::bind(&n)?, via), "conversion"),
                }
                w().net.e[h].name = if via == 3 { String::new() } else { n };
            }
        }
        Ok(())
    };
    if let Err(e) = r() {
        tool(&format!("dgram {fam:?}: {e}"));
    }
}

/// kind 0 tcp4, 1 tcp6, 2 unix path, 3 unix abstract
pub fn make_listener(h: usize, kind: u8, via: u8, full: bool) {
    let _quiet = rt::quiet();
    let r = || -> io::Result<()> {
        declare(h, "l", 0);
        match kind {
            0 | 1 => {
                let a = local(kind == 1);
                if via == 0 {
                    put!(h, TcpL, Async::<TcpListener>::bind(a), "bind");
                } else {
                    put!(h, TcpL, conv(TcpListener::bind(a)?, via), "conversion");
                }
                if let Some(TcpL(x)) = &w().net.e[h].ep {
                    w().net.e[h].addr = Some(x.get_ref().local_addr()?);
                }
            }
            2 => {
                let n = name_of(h);
                let _ = std::fs::remove_file(&n);
                if via == 0 {
                    put!(h, UnixL, Async::<UnixListener>::bind(&n), "bind");
                } else {
                    put!(h, UnixL, conv(UnixListener::bind(&n)?, via), "conversion");
                }
                w().net.e[h].name = n;
            }
            _ => {
                use std::os::linux::net::SocketAddrExt;
                let n = name_of(h);
                let a = std::os::unix::net::SocketAddr::from_abstract_name(n.as_bytes())?;
                put!(h, UnixL, conv(UnixListener::bind_addr(&a)?, via), "conversion");
                w().net.e[h].name = format!("\0{n}");
            }
        }
        if full {
            if let Some(e) = w().net.e[h].ep.clone() {
                listen(e.fd(), 0);
                w().net.e[h].backlog0 = true;
                drop_ep(e, h);
                raw_client(h);
            }
        }
        Ok(())
    };
    if let Err(e) = r() {
        tool(&format!("listener {kind}: {e}"));
    }
}

/// A plain blocking client of listener `h`, kept open to the end of the run.
pub fn raw_client(h: usize) {
    let e = &w().net.e[h];
    if e.ep.is_none() {
        return;
    }
    if let Some(a) = e.addr {
        if let Ok(s) = TcpStream::connect(a) {
            let p = s.local_addr().map(|a| a.port()).unwrap_or(0);
            w().net.keep.push(s.into());
            ev!("\"k\":\"cli\",\"l\":{},\"port\":{}", h, p);
        }
    } else {
        let r = if e.name.starts_with('\0') {
            use std::os::linux::net::SocketAddrExt;
            std::os::unix::net::SocketAddr::from_abstract_name(&e.name.as_bytes()[1..])
                .and_then(|a| UnixStream::connect_addr(&a))
        } else {
            UnixStream::connect(&e.name)
        };
        if let Ok(s) = r {
            w().net.keep.push(s.into());
            ev!("\"k\":\"cli\",\"l\":{},\"port\":0", h);
        }
    }
}

pub fn tool(m: &str) -> ! {
    rt::sim().on = false;
    eprintln!("net tool error: {m}");
    unsafe { rt::raw_syscall(231, 2, 0, 0, 0, 0, 0) };
    unreachable!()
}

// ------------------------------------------------------------------ going away
/// Gives up a reference; the last one ends the endpoint.
pub fn drop_ep(e: Ep, h: usize) {
    macro_rules! d {
        ($a:expr) => {
            if let Some(a) = Arc::into_inner($a) {
                w().net.e[h].leaving = true;
                let p = w().net.e[h].peer;
                if p != 0 {
                    w().net.e[p].shut = true;
                }
                ev!("\"k\":\"epx\",\"h\":{}", h);
                ev!("\"k\":\"hd\",\"h\":{}", h);
                drop(a);
                ev!("\"k\":\"hdr\",\"h\":{}", h);
            }
        };
    }
    match e {
        Tcp(a) => d!(a),
        Unix(a) => d!(a),
        File(a) => d!(a),
        Udp(a) => d!(a),
        Udg(a) => d!(a),
        TcpL(a) => d!(a),
        UnixL(a) => d!(a),
    }
}
pub fn drop_h(h: usize) {
    if w().net.e[h].busy != [false, false] && w().net.e[h].incoming.is_some() {
        return;
    }
    let inc = w().net.e[h].incoming.take();
    drop(inc);
    if let Some(e) = w().net.e[h].ep.take() {
        drop_ep(e, h);
    }
}

/// Unwraps a handle and wraps the descriptor again.
pub fn rewrap(h: usize, via: u8) {
    if w().net.e[h].busy != [false, false] || w().net.e[h].incoming.is_some() {
        return;
    }
    let Some(e) = w().net.e[h].ep.take() else { return };
    macro_rules! r {
        ($a:expr, $v:path, $t:ty) => {{
            let a = $a;
            if Arc::strong_count(&a) != 1 {
                w().net.e[h].ep = Some($v(a));
                return;
            }
            let a = Arc::into_inner(a).unwrap();
            let fd = a.as_raw_fd();
            ev!("\"k\":\"hd\",\"h\":{}", h);
            let inner: io::Result<$t> = if via % 2 == 0 {
                a.into_inner()
            } else {
                OwnedFd::try_from(a).map(<$t>::from)
            };
            match inner {
                Err(_) => {
                    ev!("\"k\":\"into\",\"h\":{},\"same\":0,\"open\":0,\"reg\":0", h);
                }
                Ok(x) => {
                    let open = unsafe { sys(72, fd as isize, 1, 0, 0, 0) >= 0 };
                    ev!(
                        "\"k\":\"into\",\"h\":{},\"same\":{},\"open\":{},\"reg\":{}",
                        h, (x.as_raw_fd() == fd) as u8, open as u8, env::reg_of(fd)
                    );
                    if via >= 4 {
                        // A blocking descriptor must become non-blocking again.
                        unsafe {
                            let fl = sys(72, fd as isize, 3, 0, 0, 0);
                            sys(72, fd as isize, 4, fl & !0o4000, 0, 0);
                        }
                    }
                    rt::point();
                    put!(h, $v, conv(x, via % 3), "conversion");
                }
            }
        }};
    }
    match e {
        Tcp(a) => r!(a, Tcp, TcpStream),
        Unix(a) => r!(a, Unix, UnixStream),
        File(a) => r!(a, Ep::File, File),
        Udp(a) => r!(a, Udp, UdpSocket),
        Udg(a) => r!(a, Udg, UnixDatagram),
        TcpL(a) => r!(a, TcpL, TcpListener),
        UnixL(a) => r!(a, UnixL, UnixListener),
    }
}

/// Half-closes a stream: nothing more is written to the peer.
pub fn shut(h: usize) {
    let _quiet = rt::quiet();
    let e = &w().net.e[h];
    if e.busy[1] {
        return;
    }
    let p = e.peer;
    let Some(ep) = e.ep.clone() else { return };
    match &ep {
        Tcp(a) => {
            ev!("\"k\":\"shut\",\"h\":{}", p);
            w().net.e[p].shut = true;
            let _ = a.get_ref().shutdown(std::net::Shutdown::Write);
        }
        Unix(a) => {
            ev!("\"k\":\"shut\",\"h\":{}", p);
            w().net.e[p].shut = true;
            let _ = a.get_ref().shutdown(std::net::Shutdown::Write);
        }
        File(_) => {
            drop_ep(ep, h);
            drop_h(h);
            return;
        }
        _ => {}
    }
    drop_ep(ep, h);
}

// ------------------------------------------------------------------ data
pub fn expand(runs: &[(u8, usize)]) -> Vec<u8> {
    let mut v = vec![];
    for (b, n) in runs {
        v.resize(v.len() + n, *b);
    }
    v
}
fn runs_of(b: &[u8]) -> String {
    let mut s = String::from("[");
    let mut i = 0;
    while i < b.len() {
        let mut j = i;
        while j < b.len() && b[j] == b[i] {
            j += 1;
        }
        if i > 0 {
            s.push(',');
        }
        s.push_str(&format!("[{},{}]", b[i], j - i));
        i = j;
    }
    s.push(']');
    s
}
fn addr_ep(a: &SocketAddr) -> i64 {
    w().net.e.iter().position(|e| e.addr.as_ref() == Some(a) && e.dgram).map_or(0, |i| i as i64)
}
fn path_ep(a: &std::os::unix::net::SocketAddr) -> i64 {
    match a.as_pathname() {
        Some(p) => {
            let s = p.to_string_lossy().to_string();
            w().net.e.iter().position(|e| e.dgram && e.name == s).map_or(0, |i| i as i64)
        }
        // an unnamed sender: any socket without a name
        None => -1,
    }
}

/// A poll function run as a future.
struct PollStream<T> {
    a: *const Async<T>,
    kind: NKind,
    buf: Vec<u8>,
}
impl<T> Future for PollStream<T>
where
    T: async_io::IoSafe + Read + Write + 'static,
    for<'a> &'a T: Read + Write,
{
    type Output = NRes;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<NRes> {
        let me = &mut *self;
        let kind = &me.kind;
        let buf = &mut me.buf;
        let n = buf.len();
        let cut = n / 3;
        let own = match kind {
            NKind::Read { own, .. } | NKind::Write { own, .. } | NKind::Flush { own } | NKind::Close { own } => *own,
            _ => false,
        };
        let mut x: &Async<T> = unsafe { &*me.a };
        // The scheduler serialises all accesses; this operation is the only `&mut` user.
        let y: &mut Async<T> = unsafe { &mut *(me.a as *mut Async<T>) };
        macro_rules! call {
            ($p:expr) => {{
                let p = $p;
                match kind {
                    NKind::Read { vec: false, .. } => p.poll_read(cx, buf),
                    NKind::Read { vec: true, .. } => {
                        let (b1, b2) = buf.split_at_mut(cut);
                        let (b2, b3) = b2.split_at_mut((n - cut) / 2);
                        p.poll_read_vectored(cx, &mut [IoSliceMut::new(b1), IoSliceMut::new(b2), IoSliceMut::new(b3)])
                    }
                    NKind::Write { vec: false, .. } => p.poll_write(cx, buf),
                    NKind::Write { vec: true, .. } => {
                        let (b1, b2) = buf.split_at(cut);
                        p.poll_write_vectored(cx, &[IoSlice::new(b1), IoSlice::new(b2)])
                    }
                    NKind::Flush { .. } => p.poll_flush(cx).map_ok(|_| 0),
                    _ => p.poll_close(cx).map_ok(|_| 0),
                }
            }};
        }
        let r = if own { call!(Pin::new(y)) } else { call!(Pin::new(&mut x)) };
        match r {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Ok(k)) => Poll::Ready(Ok(NOut::N(k, std::mem::take(buf), 0))),
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
        }
    }
}

type NFut = Pin<Box<dyn Future<Output = NRes>>>;

fn stream_fut<T>(a: &Arc<Async<T>>, kind: &NKind) -> NFut
where
    T: async_io::IoSafe + Read + Write + 'static,
    for<'a> &'a T: Read + Write,
{
    let buf = match kind {
        NKind::Read { cap, .. } => vec![251u8; *cap],
        NKind::Write { runs, .. } => expand(runs),
        _ => vec![],
    };
    Box::pin(PollStream { a: Arc::as_ptr(a), kind: kind.clone(), buf })
}

fn make_fut(h: usize, kind: &NKind) -> Option<(NFut, Option<Ep>)> {
    if let NKind::Connect { to, .. } = kind {
        return connect_fut(*to).map(|f| (f, None));
    }
    let ep = w().net.e[h].ep.clone()?;
    let k = kind.clone();
    // The slot keeps the endpoint alive for as long as the future exists.
    macro_rules! st {
        ($a:expr) => {
            unsafe { &*Arc::as_ptr($a) }
        };
    }
    let f: Option<NFut> = match (&ep, &k) {
        (Tcp(a), NKind::Peek { cap }) => {
            let (r, cap) = (st!(a), *cap);
            let r: &'static Async<TcpStream> = r;
            Some(Box::pin(async move {
                let mut b = vec![251u8; cap];
                let n = r.peek(&mut b).await?;
                Ok(NOut::N(n, b, 0))
            }))
        }
        (Tcp(a), _) if w().net.e[h].stream => Some(stream_fut(a, &k)),
        (Unix(a), NKind::Read { .. } | NKind::Write { .. } | NKind::Flush { .. } | NKind::Close { .. }) => Some(stream_fut(a, &k)),
        (File(a), NKind::Read { .. } | NKind::Write { .. } | NKind::Flush { .. } | NKind::Close { .. }) => Some(stream_fut(a, &k)),
        (Udp(a), _) => {
            let r: &'static Async<UdpSocket> = st!(a);
            match k {
                NKind::Recv { cap } => Some(Box::pin(async move {
                    let mut b = vec![251u8; cap];
                    let n = r.recv(&mut b).await?;
                    Ok(NOut::N(n, b, -1))
                })),
                NKind::RecvFrom { cap } => Some(Box::pin(async move {
                    let mut b = vec![251u8; cap];
                    let (n, a) = r.recv_from(&mut b).await?;
                    Ok(NOut::N(n, b, addr_ep(&a)))
                })),
                NKind::DPeek { cap } => Some(Box::pin(async move {
                    let mut b = vec![251u8; cap];
                    let n = r.peek(&mut b).await?;
                    Ok(NOut::N(n, b, -1))
                })),
                NKind::DPeekFrom { cap } => Some(Box::pin(async move {
                    let mut b = vec![251u8; cap];
                    let (n, a) = r.peek_from(&mut b).await?;
                    Ok(NOut::N(n, b, addr_ep(&a)))
                })),
                NKind::Send { runs } => Some(Box::pin(async move {
                    let b = expand(&runs);
                    let n = r.send(&b).await?;
                    Ok(NOut::N(n, vec![], 0))
                })),
                NKind::SendTo { to, runs } => {
                    let a = w().net.e[to].addr?;
                    Some(Box::pin(async move {
                        let b = expand(&runs);
                        let n = r.send_to(&b, a).await?;
                        Ok(NOut::N(n, vec![], 0))
                    }))
                }
                _ => None,
            }
        }
        (Udg(a), _) => {
            let r: &'static Async<UnixDatagram> = st!(a);
            match k {
                NKind::Recv { cap } | NKind::DPeek { cap } => Some(Box::pin(async move {
                    let mut b = vec![251u8; cap];
                    let n = r.recv(&mut b).await?;
                    Ok(NOut::N(n, b, -1))
                })),
                NKind::RecvFrom { cap } | NKind::DPeekFrom { cap } => Some(Box::pin(async move {
                    let mut b = vec![251u8; cap];
                    let (n, a) = r.recv_from(&mut b).await?;
                    Ok(NOut::N(n, b, path_ep(&a)))
                })),
                NKind::Send { runs } => Some(Box::pin(async move {
                    let b = expand(&runs);
                    let n = r.send(&b).await?;
                    Ok(NOut::N(n, vec![], 0))
                })),
                NKind::SendTo { to, runs } => {
                    let p = w().net.e[to].name.clone();
                    if p.is_empty() {
                        return None;
                    }
                    Some(Box::pin(async move {
                        let b = expand(&runs);
                        let n = r.send_to(&b, p).await?;
                        Ok(NOut::N(n, vec![], 0))
                    }))
                }
                _ => None,
            }
        }
        (TcpL(a), NKind::Accept { .. }) => {
            let r: &'static Async<TcpListener> = st!(a);
            Some(Box::pin(async move {
                let (s, addr) = r.accept().await?;
                let same = s.get_ref().peer_addr().map(|p| p == addr).unwrap_or(true);
                Ok(NOut::Acc(Tcp(Arc::new(s)), same as i64))
            }))
        }
        (UnixL(a), NKind::Accept { .. }) => {
            let r: &'static Async<UnixListener> = st!(a);
            Some(Box::pin(async move {
                let (s, addr) = r.accept().await?;
                let same = s.get_ref().peer_addr().map(|p| format!("{p:?}") == format!("{addr:?}")).unwrap_or(true);
                Ok(NOut::Acc(Unix(Arc::new(s)), same as i64))
            }))
        }
        (TcpL(a), NKind::Incoming { .. }) => {
            let r: &'static Async<TcpListener> = st!(a);
            if w().net.e[h].incoming.is_none() {
                use futures_lite::StreamExt;
                let hold = a.clone();
                w().net.e[h].incoming = Some(Box::pin(r.incoming().map(move |x| {
                    let _ = &hold;
                    x.map(|s| Tcp(Arc::new(s)))
                })));
            }
            Some(Box::pin(NextIncoming { h }))
        }
        (UnixL(a), NKind::Incoming { .. }) => {
            let r: &'static Async<UnixListener> = st!(a);
            if w().net.e[h].incoming.is_none() {
                use futures_lite::StreamExt;
                let hold = a.clone();
                w().net.e[h].incoming = Some(Box::pin(r.incoming().map(move |x| {
                    let _ = &hold;
                    x.map(|s| Unix(Arc::new(s)))
                })));
            }
            Some(Box::pin(NextIncoming { h }))
        }
        _ => None,
    };
    match f {
        Some(f) => Some((f, Some(ep))),
        None => {
            drop_ep(ep, h);
            None
        }
    }
}

struct NextIncoming {
    h: usize,
}
impl Future for NextIncoming {
    type Output = NRes;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<NRes> {
        let Some(mut s) = w().net.e[self.h].incoming.take() else { return Poll::Pending };
        let r = s.as_mut().poll_next(cx);
        w().net.e[self.h].incoming = Some(s);
        match r {
            Poll::Pending => Poll::Pending,
            Poll::Ready(None) => Poll::Ready(Err(io::Error::from_raw_os_error(61))),
            Poll::Ready(Some(Err(e))) => Poll::Ready(Err(e)),
            Poll::Ready(Some(Ok(ep))) => Poll::Ready(Ok(NOut::Acc(ep, 1))),
        }
    }
}

fn connect_fut(to: Target) -> Option<NFut> {
    let tcp = |a: SocketAddr| -> NFut {
        Box::pin(async move {
            let s = Async::<TcpStream>::connect(a).await?;
            Ok(NOut::Conn(Tcp(Arc::new(s))))
        })
    };
    let unix = |p: PathBuf| -> NFut {
        Box::pin(async move {
            let s = Async::<UnixStream>::connect(p).await?;
            Ok(NOut::Conn(Unix(Arc::new(s))))
        })
    };
    Some(match to {
        Target::L(l) => {
            let e = &w().net.e[l];
            if let Some(a) = e.addr {
                tcp(a)
            } else if !e.name.is_empty() {
                unix(PathBuf::from(e.name.clone()))
            } else {
                return None;
            }
        }
        Target::RefusedTcp4 | Target::RefusedTcp6 => {
            // A port that is taken, but nobody listens on it.
            let v6 = to == Target::RefusedTcp6 && v6_ok();
            let have = if v6 { w().net.refused6 } else { w().net.refused4 };
            let a = match have {
                Some(a) => a,
                None => {
                    let fd = unsafe { sys(41, if v6 { 10 } else { 2 }, 1 | 0o2000000, 0, 0, 0) } as i32;
                    if fd < 0 {
                        tool("socket");
                    }
                    let mut sa = [0u8; 28];
                    let len = if v6 {
                        sa[0] = 10;
                        sa[23] = 1;
                        28
                    } else {
                        sa[0] = 2;
                        sa[4] = 127;
                        sa[7] = 1;
                        16
                    };
                    if unsafe { sys(49, fd as isize, sa.as_ptr() as isize, len, 0, 0) } < 0 {
                        tool("bind");
                    }
                    let l = unsafe { TcpListener::from_raw_fd(fd) };
                    let a = l.local_addr().unwrap();
                    w().net.keep.push(unsafe { OwnedFd::from_raw_fd(l.into_raw_fd()) });
                    if v6 {
                        w().net.refused6 = Some(a)
                    } else {
                        w().net.refused4 = Some(a)
                    }
                    a
                }
            };
            tcp(a)
        }
        Target::MissingPath => unix(PathBuf::from("missing/none")),
        Target::MissingAbstract => unix(PathBuf::from(format!("\0none{}", std::process::id()))),
        Target::DeadPath => {
            let n = format!("d{}", std::process::id());
            let _ = std::fs::remove_file(&n);
            match UnixListener::bind(&n) {
                Ok(l) => drop(l),
                Err(e) => tool(&format!("dead path {e}")),
            }
            unix(PathBuf::from(n))
        }
        Target::LongPath => unix(PathBuf::from("x".repeat(200))),
    })
}

fn target_class(to: Target) -> (usize, &'static str) {
    match to {
        Target::L(l) => (l, if w().net.e[l].backlog0 { "full" } else { "live" }),
        Target::RefusedTcp4 | Target::RefusedTcp6 | Target::DeadPath | Target::MissingAbstract => (0, "refused"),
        Target::MissingPath => (0, "missing"),
        Target::LongPath => (0, "error"),
    }
}

// ------------------------------------------------------------------ running operations
fn runs_json(runs: &[(u8, usize)]) -> String {
    format!("[{}]", runs.iter().map(|(b, n)| format!("[{b},{n}]")).collect::<Vec<_>>().join(","))
}

pub fn start(q: usize, h: usize, kind: &NKind) {
    let _quiet = rt::quiet();
    if w().net.q[q].active {
        return;
    }
    let d = kind.dir();
    let conn = matches!(kind, NKind::Connect { .. });
    if !conn {
        let e = &w().net.e[h];
        if e.ep.is_none() || e.busy[d] {
            return;
        }
        if matches!(kind, NKind::Flush { .. } | NKind::Close { .. }) && !e.stream {
            return;
        }
    }
    if let NKind::SendTo { to, .. } = kind {
        let e = &w().net.e[*to];
        if e.ep.is_none() && e.name.is_empty() && e.addr.is_none() {
            return;
        }
    }
    // What is sent says which message it is.
    let mut kind = kind.clone();
    match &mut kind {
        NKind::Send { runs } | NKind::SendTo { runs, .. } => {
            if w().net.msg >= 250 {
                return;
            }
            w().net.msg += 1;
            let m = w().net.msg;
            if let Some(r) = runs.first_mut() {
                r.0 = m;
            }
        }
        _ => {}
    }
    if let NKind::Accept { h2 } | NKind::Incoming { h2 } | NKind::Connect { h2, .. } = &kind {
        let e = &mut w().net.e[*h2];
        if e.ep.is_some() || e.leaving {
            return;
        }
        e.leaving = true; // reserved
    }
    let Some((fut, hold)) = make_fut(h, &kind) else { return };
    if !conn {
        w().net.e[h].busy[d] = true;
    }
    let mut cap = 0;
    let mut to = 0usize;
    let mut runs = String::from("[]");
    let mut cls = "";
    match &kind {
        NKind::Read { cap: c, .. }
        | NKind::Peek { cap: c }
        | NKind::Recv { cap: c }
        | NKind::RecvFrom { cap: c }
        | NKind::DPeek { cap: c }
        | NKind::DPeekFrom { cap: c } => cap = *c,
        NKind::Write { runs: r, .. } => {
            to = w().net.e[h].peer;
            runs = runs_json(r)
        }
        NKind::Send { runs: r } => {
            to = w().net.e[h].peer;
            runs = runs_json(r)
        }
        NKind::SendTo { to: t, runs: r } => {
            to = *t;
            runs = runs_json(r)
        }
        NKind::Connect { to: t, .. } => {
            let (l, c) = target_class(*t);
            to = l;
            cls = c;
        }
        _ => {}
    }
    // A peek on a Unix datagram socket does not exist: it is a receive.
    let mut name = kind.name();
    if name == "pv" && matches!(w().net.e[h].ep, Some(Udg(_))) {
        name = "rv";
    }
    if matches!(kind, NKind::Connect { .. }) {
        ev!(
            "\"k\":\"nnew\",\"q\":{},\"h\":0,\"d\":{},\"f\":1,\"op\":\"cn\",\"runs\":[],\"cap\":0,\"to\":{},\"cls\":\"{}\"",
            q, d, to, cls
        );
    } else {
        ev!(
            "\"k\":\"nnew\",\"q\":{},\"h\":{},\"d\":{},\"f\":{},\"op\":\"{}\",\"runs\":{},\"cap\":{},\"to\":{},\"cls\":\"{}\"",
            q, h, d, kind.is_fut() as u8, name, runs, cap, to,
            if matches!(kind, NKind::Incoming { .. }) { "inc" } else { "" }
        );
    }
    let s = &mut w().net.q[q];
    s.fut = Some(fut);
    s.hold = hold;
    s.kind = Some(kind);
    s.h = h;
    s.wk = 0;
    s.active = true;
    s.cfd = 0;
    s.gen += 1;
}

fn finish(q: usize) {
    let s = &mut w().net.q[q];
    s.active = false;
    let (h, k, hold) = (s.h, s.kind.take().unwrap(), s.hold.take());
    if !matches!(k, NKind::Connect { .. }) {
        w().net.e[h].busy[k.dir()] = false;
    }
    if let Some(e) = hold {
        drop_ep(e, h);
    }
}

pub fn poll(q: usize, wk: &WkSpec) {
    if w().net.q[q].busy || !w().net.q[q].active {
        return;
    }
    let Some(mut f) = w().net.q[q].fut.take() else { return };
    w().net.q[q].busy = true;
    let id = prog::mk_wk_pub(w().net.q[q].wk, wk);
    w().net.q[q].wk = id;
    let wkr = waker(id);
    ev!("\"k\":\"npc\",\"q\":{},\"wk\":{}", q, id);
    rt::point();
    let conn = matches!(w().net.q[q].kind, Some(NKind::Connect { .. }));
    let me = rt::tid_or_99();
    env::env().last_add_fd.remove(&me);
    if !conn {
        env::env().cur_q.insert(me, q);
    }
    let r = f.as_mut().poll(&mut Context::from_waker(&wkr));
    env::env().cur_q.remove(&me);
    drop(wkr);
    if conn {
        if let Some(fd) = env::env().last_add_fd.get(&me) {
            w().net.q[q].cfd = *fd;
        }
    }
    rt::point();
    let quiet = rt::quiet();
    let (h, kind) = (w().net.q[q].h, w().net.q[q].kind.clone().unwrap());
    match r {
        Poll::Pending => {
            ev!("\"k\":\"npr\",\"q\":{},\"p\":1,\"r\":0,\"e\":0,\"runs\":[],\"from\":0,\"est\":0", q);
            let s = &mut w().net.q[q];
            s.fut = Some(f);
            s.busy = false;
            return;
        }
        Poll::Ready(Ok(NOut::N(n, b, from))) => {
            let read = kind.dir() == 0;
            let rs = if read { runs_of(&b[..n.min(b.len())]) } else { "[]".into() };
            if read {
                if matches!(kind, NKind::Read { .. }) {
                    w().net.e[h].got += n;
                    if n == 0 && !b.is_empty() {
                        w().net.e[h].eof = true;
                    }
                }
            } else if matches!(kind, NKind::Write { .. }) {
                let p = w().net.e[h].peer;
                w().net.e[p].sent += n;
            }
            ev!(
                "\"k\":\"npr\",\"q\":{},\"p\":0,\"r\":{},\"e\":0,\"runs\":{},\"from\":{},\"est\":0",
                q, n, rs, from
            );
        }
        Poll::Ready(Ok(NOut::Acc(ep, pa))) => {
            let port = match &ep {
                Tcp(a) => a.get_ref().peer_addr().map(|a| a.port() as i64).unwrap_or(-1),
                _ => 0,
            };
            ev!("\"k\":\"npr\",\"q\":{},\"p\":0,\"r\":0,\"e\":0,\"runs\":[],\"from\":0,\"est\":0", q);
            ev!("\"k\":\"acc\",\"l\":{},\"pa\":{},\"port\":{}", h, pa, port);
            if let NKind::Accept { h2 } | NKind::Incoming { h2 } = kind {
                w().net.e[h2].leaving = false;
                install(h2, ep, if matches!(kind, NKind::Incoming { .. }) { "incoming" } else { "accept" });
            }
        }
        Poll::Ready(Ok(NOut::Conn(ep))) => {
            let (est, port) = match &ep {
                Tcp(a) => {
                    let g = a.get_ref();
                    (
                        g.peer_addr().is_ok() && matches!(g.take_error(), Ok(None)),
                        g.local_addr().map(|a| a.port() as i64).unwrap_or(-1),
                    )
                }
                Unix(a) => (a.get_ref().peer_addr().is_ok(), 0),
                _ => (false, 0),
            };
            ev!(
                "\"k\":\"npr\",\"q\":{},\"p\":0,\"r\":0,\"e\":0,\"runs\":[],\"from\":0,\"est\":{}",
                q, est as u8
            );
            if let NKind::Connect { h2, to } = kind {
                w().net.e[h2].leaving = false;
                install(h2, ep, "connect");
                if let Target::L(l) = to {
                    if est {
                        ev!("\"k\":\"cli\",\"l\":{},\"port\":{}", l, port);
                    }
                }
            }
        }
        Poll::Ready(Err(e)) => {
            let c = e.raw_os_error().unwrap_or(match e.kind() {
                io::ErrorKind::WouldBlock => 11,
                _ => 999,
            });
            ev!("\"k\":\"npr\",\"q\":{},\"p\":0,\"r\":-1,\"e\":{},\"runs\":[],\"from\":0,\"est\":0", q, c);
            if let NKind::Accept { h2 } | NKind::Incoming { h2 } | NKind::Connect { h2, .. } = kind {
                w().net.e[h2].leaving = false;
            }
            // (not after an error that was made up)
            if matches!(kind, NKind::Read { .. }) && ![4, 12, 105].contains(&c) {
                w().net.e[h].eof = true;
            }
        }
    }
    drop(quiet);
    // The future goes before the reference that keeps its endpoint alive.
    drop(f);
    w().net.q[q].busy = false;
    finish(q);
}

pub fn cancel(q: usize) {
    if w().net.q[q].busy || !w().net.q[q].active {
        return;
    }
    let Some(f) = w().net.q[q].fut.take() else { return };
    w().net.q[q].busy = true;
    ev!("\"k\":\"nd\",\"q\":{}", q);
    rt::point();
    drop(f);
    rt::point();
    // `incoming` waits on behalf of its stream, not of one call of next().
    let inc = matches!(w().net.q[q].kind, Some(NKind::Incoming { .. }));
    ev!("\"k\":\"ndr\",\"q\":{},\"inc\":{}", q, inc as u8);
    if let Some(NKind::Accept { h2 } | NKind::Incoming { h2 } | NKind::Connect { h2, .. }) = w().net.q[q].kind {
        w().net.e[h2].leaving = false;
    }
    w().net.q[q].busy = false;
    finish(q);
}

/// Reports what the kernel says about every live endpoint.
pub fn snapshot() {
    if !w().net.on {
        return;
    }
    for h in 1..w().net.e.len() {
        let fd = match &w().net.e[h].ep {
            Some(e) => e.fd(),
            None => match w().net.q.iter().find(|s| s.active && s.h == h && s.hold.is_some()) {
                Some(s) => s.hold.as_ref().unwrap().fd(),
                None => continue,
            },
        };
        let y = env::real_rdy(fd);
        ev!("\"k\":\"rdy\",\"h\":{},\"r\":{},\"w\":{}", h, y.rd() as u8, y.wr() as u8);
    }
    for q in 1..w().net.q.len() {
        let s = &w().net.q[q];
        if s.active && s.cfd > 0 {
            let y = env::real_rdy(s.cfd);
            ev!("\"k\":\"nrdy\",\"q\":{},\"w\":{},\"g\":{}", q, y.wr() as u8, env::reg_of(s.cfd));
        }
    }
}

pub fn woken_ops(woken: &std::collections::HashSet<usize>) -> Vec<usize> {
    (1..w().net.q.len())
        .filter(|q| {
            let s = &w().net.q[*q];
            s.active && s.wk != 0 && woken.contains(&s.wk)
        })
        .collect()
}

/// Reads everything out and checks that nothing is missing.
pub fn drain(quiet: &mut dyn FnMut(bool)) {
    let keep = WkSpec::keep();
    let n = w().net.e.len();
    let nq = w().net.q.len();
    let free = |skip: usize| (1..nq).rev().filter(|q| *q != skip).find(|q| !w().net.q[*q].active);
    // Receivers may be held by operations that were started and not polled since.
    let mut idle_rounds = 0;
    let mut closed = false;
    for round in 0..400 {
        let mut progress = false;
        for q in 1..nq {
            let s = &w().net.q[q];
            if s.active && !matches!(s.kind, Some(NKind::Peek { .. }) | Some(NKind::DPeek { .. }) | Some(NKind::DPeekFrom { .. })) {
                poll(q, &keep);
                progress |= !w().net.q[q].active;
            } else if s.active {
                cancel(q);
            }
        }
        for h in 1..n {
            let e = &w().net.e[h];
            if e.ep.is_none() {
                continue;
            }
            if e.stream && !e.busy[0] && e.peer != 0 && !e.eof {
                if matches!(e.ep, Some(Ep::File(_))) && h % 2 == 1 {
                    continue; // the writing end of a pipe
                }
                if let Some(q) = free(0) {
                    start(q, h, &NKind::Read { own: round % 2 == 0, vec: round % 3 == 0, cap: 200_000 });
                    poll(q, &keep);
                    progress |= !w().net.q[q].active;
                }
            } else if e.dgram && !e.busy[0] {
                if let Some(q) = free(0) {
                    start(q, h, &NKind::RecvFrom { cap: 70_000 });
                    poll(q, &keep);
                    progress |= !w().net.q[q].active;
                }
            }
        }
        rt::settle();
        if !progress {
            idle_rounds += 1;
            if idle_rounds >= 2 {
                if closed {
                    break;
                }
                closed = true;
                idle_rounds = 0;
                quiet(false);
                // Nothing is coming any more: close the writing sides and look for the end.
                for h in 1..n {
                    let e = &w().net.e[h];
                    if e.stream && e.peer != 0 && e.ep.is_some() && !e.busy[1] {
                        shut(h);
                    }
                }
            }
        } else {
            idle_rounds = 0;
        }
    }
    quiet(false);
    for h in 1..n {
        let e = &w().net.e[h];
        if e.ep.is_some() && (e.dgram || e.stream && e.peer != 0) {
            let y = env::real_rdy(e.ep.as_ref().unwrap().fd());
            ev!("\"k\":\"dend\",\"h\":{},\"rdy\":{},\"eof\":{}", h, y.rd() as u8, e.eof as u8);
        }
    }
}

/// Accepts whatever is left on every listener.
pub fn accept_rest(quiet: &mut dyn FnMut(bool)) {
    let keep = WkSpec::keep();
    let n = w().net.e.len();
    let nq = w().net.q.len();
    for q in 1..nq {
        if matches!(w().net.q[q].kind, Some(NKind::Accept { .. }) | Some(NKind::Incoming { .. })) {
            poll(q, &keep);
        }
    }
    rt::settle();
    for l in 1..n {
        if !w().net.e[l].listener || w().net.e[l].ep.is_none() {
            continue;
        }
        for _ in 0..24 {
            if w().net.e[l].busy[0] {
                // an accept left over from the program
                if let Some(q) = (1..nq).find(|q| w().net.q[*q].active && w().net.q[*q].h == l) {
                    poll(q, &keep);
                    if w().net.q[q].active {
                        break;
                    }
                }
                continue;
            }
            let Some(h2) = (1..n).rev().find(|h| w().net.e[*h].ep.is_none() && !w().net.e[*h].leaving && !w().net.e[*h].listener) else { break };
            let Some(q) = (1..nq).find(|q| !w().net.q[*q].active) else { break };
            start(q, l, &NKind::Accept { h2 });
            poll(q, &keep);
            if w().net.q[q].active {
                rt::settle();
                poll(q, &keep);
                if w().net.q[q].active {
                    break;
                }
            }
        }
    }
    quiet(false);
    for l in 1..n {
        if w().net.e[l].listener {
            if let Some(e) = &w().net.e[l].ep {
                let y = env::real_rdy(e.fd());
                ev!(
                    "\"k\":\"accend\",\"l\":{},\"rdy\":{},\"lb\":{}",
                    l, y.rd() as u8, (!w().net.e[l].backlog0) as u8
                );
            }
        }
    }
}

pub fn teardown() {
    for q in 1..w().net.q.len() {
        cancel(q);
    }
    for h in 1..w().net.e.len() {
        drop_h(h);
        let n = std::mem::take(&mut w().net.e[h].name);
        if !n.is_empty() && !n.starts_with('\0') {
            let _ = std::fs::remove_file(n);
        }
    }
    w().net.keep.clear();
}
