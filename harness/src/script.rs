//! Histories generated from the design specifications (IoScript.tla, TimerScript.tla), run step by
//! step (and, for other seeds, with neighbouring steps overlapping under a random schedule).
//!
//! A line of the script file: `nh ns nt flt step step ...`; a step: `op[,arg...][=result][:waker.waker...]`
//! with what the design predicts.
use crate::gen::Plan;
use crate::prog::{self, Dur, Op, TSpec, WkSpec};
use crate::world::*;
use simrt::rng::Rng;
use simrt::{env, ev, rt};

#[derive(Clone, Debug)]
pub struct Step {
    op: String,
    a: Vec<i64>,
    res: Option<String>,
    /// wakers predicted to be called (instance and variant), `None` if nothing is said
    wk: Option<Vec<(usize, usize)>>,
}

static mut LINES: Vec<String> = Vec::new();

#[allow(static_mut_refs)]
pub fn load(f: &str) {
    let t = std::fs::read_to_string(f).expect("script file");
    unsafe { LINES = t.lines().map(|l| l.to_string()).collect() };
}

fn parse_step(t: &str) -> Step {
    let (t, wk) = match t.split_once(':') {
        Some((a, b)) => {
            let v = b
                .split('.')
                .filter(|x| !x.is_empty())
                .map(|x| {
                    let n: usize = x.parse().unwrap();
                    (n / 2, n % 2)
                })
                .collect();
            (a, Some(v))
        }
        None => (t, None),
    };
    let (t, res) = match t.split_once('=') {
        Some((a, b)) => (a, Some(b.to_string())),
        None => (t, None),
    };
    let mut it = t.split(',');
    let op = it.next().unwrap().to_string();
    Step { op, a: it.map(|x| x.parse().unwrap()).collect(), res, wk }
}

#[allow(static_mut_refs)]
pub fn plan(idx: u64) -> (Plan, Vec<Step>) {
    let l = unsafe { &LINES[idx as usize] };
    let mut it = l.split(' ');
    let mut n = || it.next().unwrap().parse::<usize>().unwrap();
    let mut p = Plan { nh: n(), ns: n(), nt: n(), flt: n() == 1, ..Plan::default() };
    p.scale = 1;
    p.rounds = 1;
    p.pp = match (p.flt, p.nt > 0) {
        (true, _) => vec!["C16"],
        (_, true) => vec!["C05", "C06", "C07", "C08"],
        _ => vec!["C01", "C02", "C03"],
    };
    (p, it.filter(|x| !x.is_empty()).map(parse_step).collect())
}

/// The waker of an instance: two identities each.
fn wk_of(tab: &mut Vec<[usize; 2]>, i: usize, v: usize) -> usize {
    if tab.len() <= i {
        tab.resize(i + 1, [0, 0]);
    }
    if tab[i][v] == 0 {
        tab[i][v] = new_wk(WkKind::Plain, vec![]);
    }
    tab[i][v]
}

fn dur(u: i64) -> Dur {
    match u {
        -1 => Dur::Over,
        -2 => Dur::Far,
        u => Dur::Us(u as u64),
    }
}
fn tspec(a: &[i64]) -> TSpec {
    match a[0] {
        0 => TSpec::Never,
        1 => TSpec::After(dur(a[1])),
        2 => TSpec::At(rt::rel_us() as i64 + a[1]),
        3 => TSpec::Interval(dur(a[1])),
        _ => TSpec::IntervalAt(rt::rel_us() as i64 + a[1], dur(a[2])),
    }
}

/// Client operation of a step.
fn client(s: &Step, tab: &mut Vec<[usize; 2]>) -> Option<Op> {
    let keep = WkSpec::keep();
    let i = |k: usize| s.a[k] as usize;
    Some(match s.op.as_str() {
        "F" => Op::Fut { s: i(0), h: i(1), d: i(2), owned: s.a[3] == 1 },
        "P" => {
            let k = wk_of(tab, i(0), i(1));
            w().s[i(0)].wk = k;
            Op::Poll { s: i(0), wk: keep }
        }
        "G" => {
            let k = wk_of(tab, i(0), i(3));
            w().s[i(0)].wk = k;
            Op::PollFn { s: i(0), h: i(1), d: i(2), wk: keep }
        }
        "D" => Op::DropS { s: i(0) },
        "N" => Op::New { h: i(0), nb: s.a[1] == 1 },
        "H" => Op::DropH { h: i(0) },
        "I" => Op::Into { h: i(0) },
        "R" => Op::Rdy { h: i(0), r: Some(s.a[1] == 1), w: Some(s.a[2] == 1), hup: Some(s.a[3] == 1) },
        "X" => Op::FaultMod { h: i(0), n: 1, times: 1 },
        "TN" => Op::TNew { t: i(0), spec: tspec(&s.a[1..]) },
        "TS" => Op::TSet { t: i(0), spec: tspec(&s.a[1..]) },
        "TP" => {
            let k = wk_of(tab, i(0), i(1));
            w().t[i(0)].wk = k;
            Op::TPoll { t: i(0), wk: keep, stream: s.a[2] == 1 }
        }
        "TD" => Op::TDrop { t: i(0) },
        "TQ" => Op::TQuery { t: i(0) },
        _ => return None,
    })
}

fn open(ids: &[u64]) -> bool {
    let g: Vec<_> = rt::at_gate().into_iter().filter(|g| ids.contains(&g.1)).collect();
    for (t, _) in &g {
        rt::open_gate(*t);
    }
    !g.is_empty()
}

fn differs(n: usize, what: &str) {
    ev!("\"k\":\"drift\",\"i\":{},\"what\":\"{}\"", n, what);
}

/// Step by step.
fn exact(steps: &[Step]) {
    let mut tab = vec![];
    rt::settle();
    for (n, s) in steps.iter().enumerate() {
        w().woken.clear();
        let mut got: Option<&str> = None;
        match s.op.as_str() {
            "C" => {
                rt::settle();
                if !open(&[1, 2]) {
                    differs(n, "not-waiting");
                }
                rt::settle();
                // (a thread that had gone to sleep stops once more when it is woken)
                open(&[2]);
                rt::settle();
                if !rt::at_gate().iter().any(|g| g.1 == 3) {
                    differs(n, "no-collection");
                }
            }
            "V" => {
                if !open(&[3]) {
                    differs(n, "no-events");
                }
                rt::settle();
            }
            "A" => rt::advance(s.a[0] as u64),
            _ => {
                let op = client(s, &mut tab).expect("step");
                prog::run_ops(std::slice::from_ref(&op));
                match (s.op.as_str(), s.a[0] as usize) {
                    ("P" | "G", i) => {
                        got = Some(if w().s[i].pending { "p" } else if w().s[i].erred { "e" } else { "r" })
                    }
                    ("TP", i) => got = Some(if w().t[i].pending { "p" } else { "r" }),
                    _ => {}
                }
            }
        }
        if let (Some(a), Some(b)) = (&s.res, got) {
            if a != b {
                differs(n, "result");
            }
        }
        if let Some(p) = &s.wk {
            let mut a: Vec<usize> = p.iter().map(|(i, v)| wk_of(&mut tab, *i, *v)).collect();
            let mut b = w().woken.clone();
            a.sort();
            b.sort();
            if a != b {
                differs(n, "woken");
            }
        }
    }
}

/// The instance a step works on: two steps on one of them do not overlap.
fn object(s: &Step) -> (u8, i64) {
    match s.op.as_str() {
        "F" | "P" | "G" | "D" => (0, s.a[0]),
        "N" | "H" | "I" | "X" => (9, 0),
        "TN" | "TS" | "TP" | "TD" | "TQ" => (1, s.a[0]),
        "R" => (2, s.a[0]),
        "A" => (9, 1),
        _ => (8, 0),
    }
}

fn overlapped(steps: &[Step], r: &mut Rng) {
    let mut tab = vec![];
    let width = *r.pick(&[2, 2, 3, 4]);
    let mut k = 0;
    while k < steps.len() {
        let mut group = vec![steps[k].clone()];
        k += 1;
        while group.len() < width
            && k < steps.len()
            && r.chance(2, 3)
            && object(&steps[k]).0 != 9
            && !group.iter().any(|g| object(g).0 == 9 || object(g) == object(&steps[k]))
        {
            group.push(steps[k].clone());
            k += 1;
        }
        let mut ts = vec![];
        for s in &group {
            match s.op.as_str() {
                "C" => {
                    open(&[1, 2]);
                }
                "V" => {
                    open(&[2, 3]);
                }
                "A" => rt::advance(s.a[0] as u64),
                _ => {
                    let op = client(s, &mut tab).expect("step");
                    if group.len() == 1 {
                        prog::run_ops(std::slice::from_ref(&op));
                    } else {
                        ts.push(rt::spawn("op", move || prog::run_ops(std::slice::from_ref(&op))));
                    }
                }
            }
        }
        if !ts.is_empty() {
            let o = rt::join(&ts, 3_000_000);
            if o != rt::Outcome::Ok {
                crate::dead_pub(&format!("{:?} {}", o, rt::describe()));
            }
        }
        if r.chance(1, 2) {
            rt::settle();
        }
    }
}

pub fn play(steps: &[Step], exactly: bool, r: &mut Rng) {
    rt::sim().gates_on = true;
    rt::settle();
    if exactly {
        exact(steps);
    } else {
        overlapped(steps, r);
    }
    rt::sim().gates_on = false;
    open(&[1, 2, 3]);
    rt::settle();
    env::env().faults.clear();
}
