//! libc symbols and compiler callbacks replaced in the final executable.
use crate::{cov, rt};

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let v = *g;
    if v != cov::OFF {
        rt::edge(g, v);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    cov::guard_init(a, b);
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(a: *const usize, b: *const usize) {
    cov::pcs_init(a, b);
}

macro_rules! access {
    ($($f:ident),*) => {$(
        /// A load or store of the code under test is about to happen.
        #[no_mangle]
        pub unsafe extern "C" fn $f(p: usize) {
            rt::access(p);
        }
    )*};
}
access!(
    __sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8,
    __sanitizer_cov_load16, __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4,
    __sanitizer_cov_store8, __sanitizer_cov_store16
);

extern "C" {
    fn __errno_location() -> *mut i32;
}
unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Ts {
    s: i64,
    n: i64,
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Ts) -> i32 {
    if (id == 1 || id == 7 || id == 4 || id == 6) && rt::tid() != rt::NONE && rt::sim().on {
        rt::point();
        let n = rt::now_ns();
        (*ts).s = (n / 1_000_000_000) as i64;
        (*ts).n = (n % 1_000_000_000) as i64;
        return 0;
    }
    ret(rt::raw_syscall(228, id as isize, ts as isize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: isize, a: isize, b: isize, c: isize, d: isize, e: isize, f: isize) -> isize {
    if n == 202 && rt::tid() != rt::NONE && rt::sim().on {
        let op = (b & 0x7f) as i32;
        match op {
            0 | 9 => {
                let deadline = if d == 0 {
                    u64::MAX
                } else {
                    let ts = *(d as *const Ts);
                    let v = (ts.s as u64).saturating_mul(1_000_000_000).saturating_add(ts.n as u64);
                    if op == 0 {
                        rt::now_ns().saturating_add(v)
                    } else {
                        v
                    }
                };
                return ret(rt::futex_wait(a as usize, c as u32, deadline));
            }
            1 | 10 => return ret(rt::futex_wake(a as usize, c as u32 as u64)),
            _ => {}
        }
    }
    ret(rt::raw_syscall(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if rt::tid() != rt::NONE && rt::sim().on {
        rt::yield_now();
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Ts, _rem: *mut Ts) -> i32 {
    if rt::tid() != rt::NONE && rt::sim().on {
        rt::sleep_ns(((*req).s as u64) * 1_000_000_000 + (*req).n as u64);
        return 0;
    }
    ret(rt::raw_syscall(35, req as isize, _rem as isize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, req: *const Ts, rem: *mut Ts) -> i32 {
    if rt::tid() != rt::NONE && rt::sim().on {
        let v = ((*req).s as u64) * 1_000_000_000 + (*req).n as u64;
        if flags & 1 == 0 {
            rt::sleep_ns(v);
        } else {
            let now = rt::now_ns();
            rt::sleep_ns(v.saturating_sub(now));
        }
        return 0;
    }
    (-rt::raw_syscall(230, id as isize, flags as isize, req as isize, rem as isize, 0, 0)) as i32
}

/// System calls of the real socket operations: recorded, and sometimes made to fail.
unsafe fn net(n: isize, a: isize, b: isize, c: isize, d: isize, e: isize, f: isize) -> isize {
    let (q, errno) = crate::env::net_call(n == 288);
    let r = if errno != 0 { -(errno as isize) } else { rt::raw_syscall(n, a, b, c, d, e, f) };
    crate::env::net_result(q, errno != 0, r);
    ret(r)
}
macro_rules! net {
    ($($f:ident $n:literal $($a:ident)*;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $f($($a: isize),*) -> isize {
            let v = [$($a),*, 0, 0, 0, 0];
            net($n, v[0], v[1], v[2], v[3], if v.len() > 8 { v[4] } else { 0 }, if v.len() > 9 { v[5] } else { 0 })
        }
    )*};
}
net! {
    read 0 a b c;
    write 1 a b c;
    readv 19 a b c;
    writev 20 a b c;
    sendto 44 a b c d e f;
    recvfrom 45 a b c d e f;
    sendmsg 46 a b c;
    recvmsg 47 a b c;
    accept4 288 a b c d;
}
#[no_mangle]
pub unsafe extern "C" fn send(a: isize, b: isize, c: isize, d: isize) -> isize {
    net(44, a, b, c, d, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn recv(a: isize, b: isize, c: isize, d: isize) -> isize {
    net(45, a, b, c, d, 0, 0)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if rt::tid() != rt::NONE && rt::sim().on {
        crate::env::on_close(fd);
    }
    ret(rt::raw_syscall(3, fd as isize, 0, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    th: *mut usize,
    attr: *const u8,
    f: extern "C" fn(*mut u8) -> *mut u8,
    arg: *mut u8,
) -> i32 {
    rt::create(th, attr, f, arg)
}
