//! Backend on the virtual epoll of `simrt`.
use crate::{Event, PollMode};
use simrt::env::{self, Mode};
use std::io;
use std::os::unix::io::{AsFd, AsRawFd, BorrowedFd, FromRawFd, OwnedFd, RawFd};
use std::time::Instant;

#[derive(Debug)]
pub struct Poller {
    id: usize,
    /// A real descriptor, only so that the poller has one to show.
    fd: OwnedFd,
}

fn err(e: i32) -> io::Error {
    io::Error::from_raw_os_error(e)
}

fn mode(m: PollMode) -> Mode {
    match m {
        PollMode::Oneshot => Mode::Oneshot,
        PollMode::Level => Mode::Level,
        PollMode::Edge => Mode::Edge,
        PollMode::EdgeOneshot => Mode::EdgeOneshot,
    }
}

impl Poller {
    pub fn new() -> io::Result<Poller> {
        // eventfd2(0, CLOEXEC | NONBLOCK)
        let fd = unsafe { simrt::rt::raw_syscall(290, 0, 0o2000000 | 0o4000, 0, 0, 0, 0) };
        if fd < 0 {
            return Err(err(-fd as i32));
        }
        Ok(Poller {
            id: env::poller_new(),
            fd: unsafe { OwnedFd::from_raw_fd(fd as i32) },
        })
    }
    pub fn surface_interrupts(&self) -> bool {
        // Poller implementations may or may not retry on EINTR; the caller has to cope with both.
        env::env().surface_eintr
    }
    pub fn supports_level(&self) -> bool {
        true
    }
    pub fn supports_edge(&self) -> bool {
        true
    }
    pub unsafe fn add(&self, fd: RawFd, ev: Event, m: PollMode) -> io::Result<()> {
        env::add(self.id, fd, ev.key, ev.readable, ev.writable, ev.extra.pri, mode(m)).map_err(err)
    }
    pub fn modify(&self, fd: BorrowedFd<'_>, ev: Event, m: PollMode) -> io::Result<()> {
        env::modify(self.id, fd.as_raw_fd(), ev.key, ev.readable, ev.writable, ev.extra.pri, mode(m)).map_err(err)
    }
    pub fn delete(&self, fd: BorrowedFd<'_>) -> io::Result<()> {
        env::delete(self.id, fd.as_raw_fd()).map_err(err)
    }
    pub fn wait_deadline(&self, events: &mut Events, deadline: Option<Instant>) -> io::Result<()> {
        let (abs, zero) = match deadline {
            None => (u64::MAX, false),
            Some(d) => {
                let left = d.saturating_duration_since(Instant::now());
                let ns = u64::try_from(left.as_nanos()).unwrap_or(u64::MAX);
                (simrt::rt::now_ns().saturating_add(ns), ns == 0)
            }
        };
        if events.list.len() >= events.cap {
            // epoll_wait with no room for events
            return Err(err(22));
        }
        let got = env::wait(self.id, abs, zero, events.cap - events.list.len()).map_err(err)?;
        for o in got {
            events.list.push(Event {
                key: o.key,
                readable: o.r,
                writable: o.w,
                extra: EventExtra { hup: o.hup, pri: false, err: o.err },
            });
        }
        Ok(())
    }
    pub fn notify(&self) -> io::Result<()> {
        env::notify(self.id);
        Ok(())
    }
}

impl AsRawFd for Poller {
    fn as_raw_fd(&self) -> RawFd {
        self.fd.as_raw_fd()
    }
}
impl AsFd for Poller {
    fn as_fd(&self) -> BorrowedFd<'_> {
        self.fd.as_fd()
    }
}

pub struct Events {
    list: Vec<Event>,
    cap: usize,
}
impl Events {
    pub fn with_capacity(cap: usize) -> Events {
        Events { list: Vec::new(), cap }
    }
    pub fn iter(&self) -> impl Iterator<Item = Event> + '_ {
        self.list.iter().copied()
    }
    pub fn clear(&mut self) {
        self.list.clear();
    }
    pub fn capacity(&self) -> usize {
        self.cap
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct EventExtra {
    hup: bool,
    pri: bool,
    err: bool,
}
impl EventExtra {
    pub const fn empty() -> EventExtra {
        EventExtra { hup: false, pri: false, err: false }
    }
    pub fn set_hup(&mut self, active: bool) {
        self.hup = active;
    }
    pub fn set_pri(&mut self, active: bool) {
        self.pri = active;
    }
    pub fn is_hup(&self) -> bool {
        self.hup
    }
    pub fn is_pri(&self) -> bool {
        self.pri
    }
    pub fn is_connect_failed(&self) -> Option<bool> {
        Some(self.err && self.hup)
    }
    pub fn is_err(&self) -> Option<bool> {
        Some(self.err)
    }
}
