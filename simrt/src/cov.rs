//! Which control-flow edges are switch points.
//!
//! The compiler gives every edge of an instrumented crate a guard word and, in a parallel table, its
//! address.  At start the addresses are looked up in the executable's symbol table: only edges in
//! functions of the code under test (generic functions instantiated in the harness included) are
//! switch points, everything else is switched off.
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub const OFF: u32 = 0;
pub const ON: u32 = 1;
pub const HOT: u32 = 2;

static GUARDS: AtomicUsize = AtomicUsize::new(0);
static NGUARDS: AtomicUsize = AtomicUsize::new(0);
static PCS: AtomicUsize = AtomicUsize::new(0);
static NPCS: AtomicUsize = AtomicUsize::new(0);

/// The code under test.
const CODE: [&str; 4] = ["async_io", "parking", "concurrent_queue", "async_lock"];
const OTHER: [&str; 8] = ["harness", "simrt", "polling", "4core", "3std", "5alloc", "core..", "std.."];

pub unsafe fn guard_init(a: *mut u32, b: *mut u32) {
    // The sections of all objects are merged: every object reports the same range.
    GUARDS.store(a as usize, Relaxed);
    NGUARDS.store((b as usize - a as usize) / 4, Relaxed);
}
pub unsafe fn pcs_init(a: *const usize, b: *const usize) {
    PCS.store(a as usize, Relaxed);
    NPCS.store((b as usize - a as usize) / 16, Relaxed);
}

pub struct Cov {
    /// indices of the guards of the code under test, async-io's first
    pub on: Vec<u32>,
    pub own: usize,
    pub seen: Vec<bool>,
    hot: Vec<u32>,
    syms: Vec<(usize, usize, String)>,
}
static mut COV: Option<Cov> = None;
#[allow(static_mut_refs)]
pub fn cov() -> &'static mut Cov {
    unsafe { COV.as_mut().unwrap() }
}
fn guards() -> &'static mut [u32] {
    unsafe { std::slice::from_raw_parts_mut(GUARDS.load(Relaxed) as *mut u32, NGUARDS.load(Relaxed)) }
}
fn pc(i: usize) -> usize {
    unsafe { *((PCS.load(Relaxed) + 16 * i) as *const usize) }
}
pub fn index(g: *mut u32) -> usize {
    (g as usize - GUARDS.load(Relaxed)) / 4
}

fn u16_(b: &[u8], o: usize) -> usize {
    u16::from_le_bytes(b[o..o + 2].try_into().unwrap()) as usize
}
fn u32_(b: &[u8], o: usize) -> usize {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) as usize
}
fn u64_(b: &[u8], o: usize) -> usize {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap()) as usize
}

/// Function symbols of this executable: (start, end, name), relocated.
fn symbols() -> Vec<(usize, usize, String)> {
    let b = std::fs::read("/proc/self/exe").expect("own executable");
    let (shoff, shentsize, shnum) = (u64_(&b, 0x28), u16_(&b, 0x3a), u16_(&b, 0x3c));
    let mut v = vec![];
    let me = symbols as *const () as usize;
    let mut base = None;
    for i in 0..shnum {
        let s = shoff + i * shentsize;
        if u32_(&b, s + 4) != 2 {
            continue;
        }
        let (off, size, link) = (u64_(&b, s + 0x18), u64_(&b, s + 0x20), u32_(&b, s + 0x28));
        let str_off = u64_(&b, shoff + link * shentsize + 0x18);
        for k in 0..size / 24 {
            let e = off + 24 * k;
            if b[e + 4] & 15 != 2 {
                continue;
            }
            let n = str_off + u32_(&b, e);
            let len = b[n..].iter().position(|c| *c == 0).unwrap();
            let name = String::from_utf8_lossy(&b[n..n + len]).into_owned();
            let (start, sz) = (u64_(&b, e + 8), u64_(&b, e + 16));
            if name.contains("5simrt3cov7symbols") {
                base = Some(me.wrapping_sub(start));
            }
            v.push((start, start + sz, name));
        }
    }
    let base = base.expect("no symbol table");
    for s in v.iter_mut() {
        s.0 = s.0.wrapping_add(base);
        s.1 = s.1.wrapping_add(base);
    }
    v.sort();
    v
}

fn owner(name: &str) -> Option<usize> {
    let first = |l: &[&str]| l.iter().enumerate().filter_map(|(i, c)| name.find(c).map(|p| (p, i))).min();
    let (p, i) = first(&CODE)?;
    match first(&OTHER) {
        Some((q, _)) if q < p => None,
        _ => Some(i),
    }
}

#[allow(static_mut_refs)]
pub fn init() {
    let n = NGUARDS.load(Relaxed);
    assert!(n > 0 && n == NPCS.load(Relaxed), "{} guards, {} addresses", n, NPCS.load(Relaxed));
    let syms = symbols();
    let (mut own, mut deps) = (vec![], vec![]);
    let g = guards();
    for (i, x) in g.iter_mut().enumerate() {
        let a = pc(i);
        let k = syms.partition_point(|s| s.0 <= a);
        let o = if k > 0 && a < syms[k - 1].1 { owner(&syms[k - 1].2) } else { None };
        *x = if o.is_some() { ON } else { OFF };
        match o {
            Some(0) => own.push(i as u32),
            Some(_) => deps.push(i as u32),
            None => {}
        }
    }
    let no = own.len();
    own.extend(deps);
    unsafe { COV = Some(Cov { own: no, on: own, seen: vec![false; n], hot: vec![], syms }) };
}

/// Chooses the edges at which threads are held up in the next run.
pub fn choose(r: &mut crate::rng::Rng) {
    let c = cov();
    let g = guards();
    for h in c.hot.drain(..) {
        g[h as usize] = ON;
    }
    let n = *r.pick(&[0u64, 0, 2, 5, 12, 30, 60]);
    for _ in 0..n {
        let k = if r.chance(4, 5) { c.own } else { c.on.len() };
        let h = c.on[r.below(k as u64) as usize];
        if g[h as usize] == ON {
            g[h as usize] = HOT;
            c.hot.push(h);
        }
    }
}

/// For the log: how many edges of async-io there are, which were reached, per function.
pub fn report() -> String {
    let c = cov();
    let mut m: std::collections::BTreeMap<&str, (usize, usize)> = Default::default();
    for i in &c.on[..c.own] {
        let a = pc(*i as usize);
        let k = c.syms.partition_point(|s| s.0 <= a);
        let e = m.entry(&c.syms[k - 1].2).or_default();
        e.1 += 1;
        if c.seen[*i as usize] {
            e.0 += 1;
        }
    }
    m.iter().map(|(k, v)| format!("{} {} {}\n", v.0, v.1, k)).collect()
}
/// Bit per edge of async-io.
pub fn bits() -> String {
    let c = cov();
    c.on[..c.own].iter().map(|i| if c.seen[*i as usize] { '1' } else { '0' }).collect()
}
