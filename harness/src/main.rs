mod bo;
mod gen;
mod net;
mod ops;
mod prog;
mod script;
mod world;

use prog::Op;
use simrt::rng::Rng;
use simrt::rt::{self, Outcome, Strategy};
use simrt::{env, ev, log};
use std::collections::HashSet;
use std::io::Write;
use world::*;

struct Args {
    profile: String,
    seed: u64,
    from: u64,
    n: u64,
    out: String,
}

struct Out {
    f: std::fs::File,
    seen: HashSet<u64>,
    runs: u64,
    written: u64,
    events: u64,
    steps: u64,
    switches: u64,
    meta: std::fs::File,
}
static mut OUT: Option<Out> = None;
static mut HEAD: Option<(String, u64, u64, gen::Plan)> = None;

#[allow(static_mut_refs)]
fn out() -> &'static mut Out {
    unsafe { OUT.as_mut().unwrap() }
}

fn hash(s: &[String]) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

/// Writes the trace of the current run.
#[allow(static_mut_refs)]
fn flush_trace() {
    let lines = log::stop();
    let (profile, seed, idx, plan) = unsafe { HEAD.as_ref().unwrap() };
    let o = out();
    o.runs += 1;
    o.events += lines.len() as u64;
    o.steps += rt::sim().steps;
    o.switches += rt::sim().switches;
    rt::sim().switches = 0;
    if o.seen.insert(hash(&lines)) {
        o.written += 1;
        let pp = plan.pp.iter().map(|p| format!("\"{p}\"")).collect::<Vec<_>>().join(",");
        let hdr = format!(
            "{{\"k\":\"hdr\",\"fam\":\"{}\",\"seed\":{},\"idx\":{},\"nh\":{},\"ns\":{},\"nt\":{},\"nb\":{},\"no\":{},\"nw\":{},\"nq\":{},\"nth\":{},\"bo\":{},\"bad\":{},\"flt\":{},\"pp\":[{}],\"t\":0,\"n\":0}}",
            profile, seed, idx, plan.nh, plan.ns, plan.nt, plan.nb, plan.no,
            w().wakers.len(), plan.nq, rt::sim().max_tid, (plan.nb > 0) as u8, plan.bad as u8, plan.flt as u8, pp
        );
        let mut s = String::with_capacity(lines.len() * 48);
        s.push('[');
        s.push_str(&hdr);
        for l in &lines {
            s.push(',');
            s.push_str(l);
        }
        s.push_str("]\n");
        o.f.write_all(s.as_bytes()).unwrap();
    }
    // Progress, so that the orchestrator knows where a process that ends early has got to.
    let _ = writeln!(o.meta, "{} {} {} {} {} {}", idx, o.runs, o.written, o.events, o.steps, o.switches);
}

fn dead(d: &str) {
    rt::sim().on = false;
    ev!("\"k\":\"dead\",\"why\":\"{}\"", if d.starts_with("Live") { "livelock" } else { "stuck" });
    eprintln!("dead: {d}");
    flush_trace();
    unsafe { rt::raw_syscall(231, 5, 0, 0, 0, 0, 0) };
}

pub fn dead_pub(d: &str) {
    dead(d)
}

fn hook(info: &std::panic::PanicHookInfo<'_>) {
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    let tool = loc.starts_with("src/") && !loc.contains("reactor") && !loc.contains("driver") && !loc.starts_with("src/lib.rs")
        || loc.contains("simrt")
        || loc.contains("shims/polling");
    let msg = info
        .payload()
        .downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| info.payload().downcast_ref::<String>().cloned())
        .unwrap_or_default();
    rt::sim().on = false;
    eprintln!("panic at {loc}: {msg} (thread {})", rt::tid_or_99());
    if tool {
        unsafe { rt::raw_syscall(231, 2, 0, 0, 0, 0, 0) };
    }
    ev!("\"k\":\"panic\",\"at\":\"{}\"", loc.replace(['"', '\\'], "'"));
    flush_trace();
    unsafe { rt::raw_syscall(231, 5, 0, 0, 0, 0, 0) };
}

fn strategy(r: &mut Rng) -> Strategy {
    let s = rt::sim();
    s.mean_hint = *r.pick(&[0, 1, 2, 2, 4, 8]);
    match r.below(10) {
        0..=6 => Strategy::Random { mean: *r.pick(&[2, 5, 10, 20, 50, 150, 500, 3000]) },
        _ => Strategy::Pct { depth: r.range(1, 6) as u32, len: *r.pick(&[300, 1000, 4000, 15000]) },
    }
}

/// Polls everything that has been woken, as an executor would.
fn executor_round(r: &mut Rng) {
    let woken: HashSet<usize> = std::mem::take(&mut w().woken).into_iter().collect();
    let mut ops = vec![];
    let keep = || prog::WkSpec::keep();
    for s in 1..w().s.len() {
        if w().s[s].pending && woken.contains(&w().s[s].wk) {
            ops.push(Op::Poll { s, wk: keep() });
        }
    }
    for t in 1..w().t.len() {
        if w().t[t].pending && woken.contains(&w().t[t].wk) {
            ops.push(Op::TPoll { t, wk: keep(), stream: true });
        }
    }
    for o in 1..w().ops.len() {
        if !w().ops[o].done && w().ops[o].wk != 0 && woken.contains(&w().ops[o].wk) {
            ops.push(Op::OpPoll { o, wk: keep() });
        }
    }
    for q in net::woken_ops(&woken) {
        ops.push(Op::N(prog::NetOp::Poll { q, wk: keep() }));
    }
    r.shuffle(&mut ops);
    prog::run_ops(&ops);
}

fn quiet(bo: bool) {
    let s = rt::sim();
    // Time that passed between reading the clock and acting on it delays things by as much.
    let jitter = std::mem::take(&mut s.jitter);
    rt::settle();
    let from = rt::rel_us();
    let slack = s.jitter_total.min(100_000);
    // With block_on threads around, handing over the reactor may take a while.
    if bo || slack > 0 {
        rt::advance(slack + if bo { 60_000 } else { 0 });
    }
    if w().net.on {
        // What the kernel calls ready now must have been dealt with after some more time.
        net::snapshot();
        rt::settle();
    }
    idle_event(from);
    s.jitter = jitter;
}

fn one_run(profile: &str, seed: u64, idx: u64) {
    let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(idx), hash(&[profile.to_string()]));
    let scripted = profile == "script";
    let (plan, steps) = if scripted { script::plan(idx) } else { (gen::plan(profile, &mut r), vec![]) };
    let exactly = scripted && seed == 0;
    world::reset(plan.nh, plan.ns, plan.nt, plan.nb, plan.no);
    env::begin_run();
    net::begin(plan.nh, plan.nq, plan.nq > 0);
    env::env().real = plan.nq > 0;
    env::env().grace_us = if plan.nq > 0 { 300 } else { 0 };
    let st = if exactly { Strategy::Coop } else { strategy(&mut r) };
    rt::sim().unit = if plan.nanos { 1 } else { 1000 };
    rt::sim().fine = !exactly && r.chance(1, 4);
    rt::begin(seed.wrapping_mul(7919).wrapping_add(idx), 77, st);
    let s = rt::sim();
    s.jitter = plan.jitter;
    s.jitter_max_us = plan.jitter_max;
    s.jitter_total = 0;
    env::env().shuffle = !exactly;
    env::env().inj = plan.inj;
    env::env().surface_eintr = r.chance(1, 2);
    env::env().max_events = if r.chance(1, 5) && !exactly { 1 } else { 0 };
    log::start();
    let bo = plan.nb > 0;
    let setup = plan.setup.clone();
    let threads = plan.threads.clone();
    let drivers = plan.drivers.clone();
    let rounds = plan.rounds;
    let scale = plan.scale;
    let timers = plan.nt > 0;
    unsafe { HEAD = Some((profile.to_string(), seed, idx, plan)) };

    prog::run_ops(&setup);
    if scripted {
        script::play(&steps, exactly, &mut r);
    }
    if r.chance(1, 2) && profile != "init" {
        rt::settle();
    }
    // Threads.
    let mut drv = vec![];
    for d in drivers {
        drv.push(rt::spawn("drv", move || {
            for b in &d {
                bo::run(b);
            }
        }));
    }
    let mut ts = vec![];
    for t in threads {
        ts.push(rt::spawn("op", move || prog::run_ops(&t)));
    }
    let o = rt::join(&ts, 3_000_000 + 30_000 * scale);
    if o != Outcome::Ok {
        dead(&format!("{:?} {}", o, rt::describe()));
    }
    quiet(bo);
    for _ in 0..rounds {
        if timers && r.chance(1, 2) {
            // Some of the rounds come late.
            rt::advance(r.range(1, 300) * scale);
        }
        executor_round(&mut r);
        quiet(bo);
    }
    env::env().inj = 0;
    // Make everything ready and due.
    for h in 1..w().h.len() {
        if w().h[h].io.is_some() {
            prog::exec(&Op::Rdy { h, r: Some(true), w: Some(true), hup: None });
        }
    }
    rt::advance(3_000 * scale);
    quiet(bo);
    executor_round(&mut r);
    quiet(bo);
    match profile {
        "data" => net::drain(&mut |b| quiet(b)),
        "conn" => {
            for _ in 0..3 {
                executor_round(&mut r);
                quiet(bo);
            }
            net::accept_rest(&mut |b| quiet(b))
        }
        _ => {}
    }
    // Release block_on calls.
    for round in 0..6 {
        for _ in 0..60 {
            if drv.iter().any(|t| rt::is_sleeping(*t)) {
                rt::advance(100_000);
            }
        }
        let mut any = false;
        for b in 1..w().b.len() {
            if w().b[b].active {
                any = true;
                prog::exec(&Op::DoneB { b });
            }
        }
        if !any && drv.iter().all(|t| rt::is_done(*t)) {
            break;
        }
        quiet(bo);
        if round == 5 {
            break;
        }
        // Calls that wait for a number of polls get them.
        for b in 1..w().b.len() {
            if w().b[b].active {
                for _ in 0..4 {
                    prog::exec(&Op::WakeB { b });
                    rt::settle();
                }
            }
        }
    }
    let o = rt::join(&drv, 10_000_000);
    if o != Outcome::Ok {
        dead(&format!("{:?} {}", o, rt::describe()));
    }
    // Tear down.
    let mut ops = vec![];
    for s in 1..w().s.len() {
        ops.push(Op::DropS { s });
    }
    for t in 1..w().t.len() {
        ops.push(Op::TDrop { t });
    }
    for o in 1..w().ops.len() {
        ops.push(Op::OpDrop { o });
    }
    r.shuffle(&mut ops);
    for h in 1..w().h.len() {
        ops.push(Op::DropH { h });
    }
    env::env().faults.clear();
    prog::run_ops(&ops);
    net::teardown();
    rt::advance(3_000);
    // Wakers of block_on calls go with the run.
    for b in w().b.iter_mut() {
        b.waker = None;
    }
    quiet(bo);
    for wk in w().wakers.iter() {
        unsafe { *wk.fwd.get() = None };
    }
    flush_trace();
    rt::end();
    rt::settle();
}

fn main() {
    let mut a = Args { profile: "io".into(), seed: 1, from: 0, n: 10, out: "/dev/null".into() };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let v = it.next().unwrap_or_default();
        match k.as_str() {
            "--profile" => a.profile = v,
            "--seed" => a.seed = v.parse().unwrap(),
            "--from" => a.from = v.parse().unwrap(),
            "--n" => a.n = v.parse().unwrap(),
            "--out" => a.out = v,
            "--script" => script::load(&v),
            _ => panic!("argument {k}"),
        }
    }
    let f = std::fs::File::create(&a.out).unwrap();
    let meta = std::fs::File::create(format!("{}.meta", a.out)).unwrap();
    unsafe {
        OUT = Some(Out { f, seen: HashSet::new(), runs: 0, written: 0, events: 0, steps: 0, switches: 0, meta });
    }
    if let Some(d) = std::env::var_os("AIO_SCRATCH") {
        std::env::set_current_dir(d).unwrap();
    } else if matches!(a.profile.as_str(), "data" | "conn") {
        std::env::set_current_dir(std::env::temp_dir()).unwrap();
    }
    rt::init();
    rt::sim().on_dead = Some(dead);
    world::anchor();
    std::panic::set_hook(Box::new(hook));
    if a.profile != "init" {
        // Start the library.
        world::reset(1, 1, 1, 1, 1);
        rt::begin(0, 0, Strategy::Coop);
        drop(async_io::Async::new_nonblocking(SimIo { h: 0, fd: new_fd() }));
        rt::settle();
    }
    for idx in a.from..a.from + a.n {
        one_run(&a.profile, a.seed, idx);
    }
    rt::sim().on = false;
    let _ = out().f.flush();
    let _ = std::fs::write(format!("{}.cov", a.out), simrt::cov::bits());
    if let Some(f) = std::env::var_os("AIO_COV") {
        let _ = std::fs::write(f, simrt::cov::report());
    }
    unsafe { rt::raw_syscall(231, 0, 0, 0, 0, 0, 0) };
}
