//! The event trace of the current run.
use std::cell::UnsafeCell;

struct L {
    on: bool,
    lines: Vec<String>,
    /// rounds of polling in a row with nothing else happening
    streak: u32,
    cut: bool,
}
struct S(UnsafeCell<L>);
// Only the baton holder touches the log.
unsafe impl Sync for S {}
static LOG: S = S(UnsafeCell::new(L { on: false, lines: Vec::new(), streak: 0, cut: false }));

#[allow(clippy::mut_from_ref)]
fn l() -> &'static mut L {
    unsafe { &mut *LOG.0.get() }
}

pub fn start() {
    l().lines.clear();
    l().streak = 0;
    l().cut = false;
    l().on = true;
}
pub fn stop() -> Vec<String> {
    l().on = false;
    std::mem::take(&mut l().lines)
}
pub fn is_on() -> bool {
    l().on
}
pub fn len() -> usize {
    l().lines.len()
}
/// Appends an event: `body` is the inside of a JSON object; thread and virtual time are added.
pub fn ev(body: &str) {
    if l().on {
        let s = format!("{{{},\"t\":{},\"n\":{}}}", body, crate::rt::tid_or_99(), crate::rt::rel_us());
        l().lines.push(s);
        if body.starts_with("\"k\":\"collect\"") {
            l().streak += 1;
        } else if !(body.starts_with("\"k\":\"wenter\"") || body.starts_with("\"k\":\"mod\"")) {
            l().streak = 0;
        }
        // A run that has gone wild: what it shows it has shown by now.
        if (l().streak > 300 || l().lines.len() > 50_000) && !l().cut {
            l().cut = true;
            crate::rt::runaway();
        }
    }
}

#[macro_export]
macro_rules! ev {
    ($($a:tt)*) => { if $crate::log::is_on() { $crate::log::ev(&format!($($a)*)) } };
}
