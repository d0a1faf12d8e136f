#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property (see DESIGN.md).

Exit 0: held on everything explored; 1 with a VIOLATION line: broken; 2: the check itself failed.
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import plan as P  # noqa: E402

REPO = "/repo"
BUILD = os.path.join(V, "build")
SPEC = os.path.join(V, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = 8
T0 = time.time()


class ToolError(Exception):
    pass


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


# ---------------------------------------------------------------- build
def build(pkg="harness"):
    """Builds the harness against /repo's working tree; returns the binary."""
    d = os.path.join(V, pkg)
    target = os.path.join(BUILD, pkg)
    os.makedirs(target, exist_ok=True)
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k != "CARGO_HOME":
            del env[k]
    env.pop("RUSTFLAGS", None)
    env["RUSTC_WRAPPER"] = os.path.join(d, "rustc-wrap.sh")
    # Files whose time stamps were reset by a checkout are looked at afresh.
    r = subprocess.run(
        ["cargo", "build", "--offline", "--locked", "--target-dir", target],
        cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-4000:])
        raise ToolError("build of %s failed" % pkg)
    return os.path.join(target, "debug", pkg)


def src_stamp():
    """Content hash of the code under test, so that a stale build can never be used."""
    import hashlib
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/src/**/*.rs", recursive=True)) + [REPO + "/Cargo.toml"]:
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()


def fresh_build(pkg="harness"):
    stamp = src_stamp()
    # cargo does not look into the compiler wrapper
    wrap = open(os.path.join(V, pkg, "rustc-wrap.sh")).read()
    wf = os.path.join(BUILD, pkg, "wrap")
    if (open(wf).read() if os.path.exists(wf) else "") != wrap:
        shutil.rmtree(os.path.join(BUILD, pkg), ignore_errors=True)
        os.makedirs(os.path.join(BUILD, pkg))
        open(wf, "w").write(wrap)
    sf = os.path.join(BUILD, pkg + ".stamp")
    old = open(sf).read() if os.path.exists(sf) else ""
    if old != stamp:
        # cargo looks at time stamps; make it look at the package again.
        for d in glob.glob(os.path.join(BUILD, pkg, "debug", ".fingerprint", "async-io-*")):
            shutil.rmtree(d, ignore_errors=True)
    b = build(pkg)
    if src_stamp() != stamp:
        raise ToolError("/repo changed during the build")
    open(sf, "w").write(stamp)
    return b


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, workers=1, heap="3g", timeout=600, c1=True, extra=(), meta=None):
    meta = meta or os.path.join(BUILD, "tlc", "m%d_%d" % (os.getpid(), time.time_ns()))
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"]
    if c1:
        cmd.append("-XX:TieredStopAtLevel=1")
    cmd += ["-Xss16m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-config", cfg,
            "-workers", str(workers), "-metadir", meta, *extra, module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s %s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def states(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


BAD = re.compile(r'<<"BAD", (\d+), "(\w+)", "([^"]+)", (\d+)>>')


def check_traces(path):
    """TLC over a file of traces. Returns (bads, generated, distinct, ntraces)."""
    data = open(path, "rb").read()
    n = data.count(b"\n")
    want = data.count(b'{"k":"')
    if n == 0:
        return [], 0, 0, 0
    rc, out = tlc("Trace.tla", "Trace.cfg", env={"TRACE": path})
    if rc != 0 or "No error has been found" not in out:
        raise ToolError("TLC failed on %s:\n%s" % (path, out[-3000:]))
    g, d = states(out)
    if d != want:
        raise ToolError("TLC consumed %d of %d events of %s" % (d, want, path))
    # TLC's pretty-printer may break a value over lines
    flat = re.sub(r"\s+", " ", out)
    bads = [(int(a), b, c, int(x)) for a, b, c, x in BAD.findall(flat)]
    return bads, g, d, n


# ---------------------------------------------------------------- running the real code
def synth(profile, seed, idx, pp, kind):
    hdr = {"k": "hdr", "fam": profile, "seed": seed, "idx": idx, "nh": 0, "ns": 0, "nt": 0, "nb": 0,
           "no": 0, "nw": 0, "nq": 0, "nth": 1, "bo": 0, "bad": 0, "flt": 0, "pp": pp, "t": 0, "n": 0}
    return json.dumps([hdr, {"k": kind, "why": "process", "t": 0, "n": 0}], separators=(",", ":")) + "\n"


def run_harness(binary, profile, seed, frm, n, out, extra=(), timeout=150):
    """Runs programs frm..frm+n. A process that ends early (crash found) is continued behind it."""
    tot = dict(runs=0, written=0, events=0, steps=0, switches=0, early=0)
    parts, edges = [], 0
    pos, end = frm, frm + n
    scratch = out + ".d"
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, AIO_SCRATCH=scratch)
    while pos < end:
        o = "%s.%d" % (out, pos)
        cmd = [binary, "--profile", profile, "--seed", str(seed), "--from", str(pos), "--n", str(end - pos),
               "--out", o, *extra]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                               errors="replace", text=True, env=env)
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            rc, err = "timeout", ""
        last = pos - 1
        if os.path.exists(o + ".meta"):
            ls = [l.split() for l in open(o + ".meta").read().splitlines()]
            ls = [l for l in ls if len(l) == 6]
            if ls:
                last = int(ls[-1][0])
                for k, v in zip(("runs", "written", "events", "steps", "switches"), ls[-1][1:]):
                    tot[k] += int(v)
            os.remove(o + ".meta")
        if os.path.exists(o + ".cov"):
            b = open(o + ".cov").read()
            edges |= int(b or "0", 2)
            tot["nedges"] = len(b)
            os.remove(o + ".cov")
        if os.path.exists(o):
            parts.append(o)
        if rc == 0:
            break
        tot["early"] += 1
        if rc == 5:
            pos = last + 1
        elif rc == 2:
            raise ToolError("harness: %s (profile %s seed %d after %d)" % (err[-500:], profile, seed, last))
        else:
            # The process died or hung in the code under test.
            log("harness ended with", rc, "profile", profile, "seed", seed, "program", last + 1, err[-300:])
            with open(o, "a") as f:
                f.write(synth(profile, seed, last + 1, P.CRASH.get(profile, []), "dead" if rc == "timeout" else "panic"))
            pos = last + 2
        if tot["early"] >= 4:
            break
    shutil.rmtree(scratch, ignore_errors=True)
    with open(out, "wb") as f:
        for p in parts:
            b = open(p, "rb").read()
            # a line cut off by a crash is dropped
            if b and not b.endswith(b"\n"):
                b = b[: b.rfind(b"\n") + 1]
            f.write(b)
            os.remove(p)
    tot["edges"] = edges
    return tot


def job_traces(binary, prop, profile, seed, frm, n, tag, extra=()):
    out = os.path.join(BUILD, "traces", "%s_%s_%d_%d.nd" % (tag, profile, seed, frm))
    if profile in P.FRESH:
        # a process per program
        tot = dict(runs=0, written=0, events=0, steps=0, switches=0, early=0)
        with open(out, "wb") as f:
            seen = set()
            for k in range(frm, frm + n):
                one = out + ".one"
                t = run_harness(binary, profile, seed, k, 1, one, extra)
                for a in ("runs", "written", "events", "steps", "switches", "early"):
                    tot[a] += t[a]
                tot["edges"] = tot.get("edges", 0) | t["edges"]
                tot["nedges"] = max(tot.get("nedges", 0), t.get("nedges", 0))
                b = open(one, "rb").read()
                os.remove(one)
                key = re.sub(rb'"idx":\d+', b"", b)
                if key not in seen:
                    seen.add(key)
                    f.write(b)
                if tot["early"] >= 4:
                    break
            tot["written"] = len(seen)
    else:
        tot = run_harness(binary, profile, seed, frm, n, out, extra)
    bads, g, d, ntr = check_traces(out)
    tool = [b for b in bads if b[1] == "TOOL"]
    if tool:
        keep = out + ".tool"
        shutil.copy(out, keep)
        raise ToolError("inconsistent trace %s: %s" % (keep, tool[:3]))
    kinds = {}
    data = open(out, "rb").read()
    for k in P.KINDS:
        c = data.count(b'"k":"' + k.encode() + b'"')
        if c:
            kinds[k] = c
    mine = [b for b in bads if b[1] == prop]
    viol = []
    if mine:
        lines = data.splitlines()
        # the shortest trace for every rule
        best = {}
        for i, p, rule, x in mine:
            if rule not in best or len(lines[i - 1]) < len(lines[best[rule][0] - 1]):
                best[rule] = (i, x)
        viol = [(rule, x, lines[i - 1].decode()) for rule, (i, x) in best.items()]
    sample = None
    ls = data.split(b"\n", 2)
    if ls and ls[0]:
        t = json.loads(ls[-2] if len(ls) > 2 and ls[1] else ls[0])
        sample = {"profile": profile, "program": t[0]["idx"], "events": len(t),
                  "head": [{k: v for k, v in e.items()} for e in t[1:14]]}
    os.remove(out)
    others = {}
    for b in bads:
        if b[1] != prop:
            others[b[1]] = others.get(b[1], 0) + 1
    return dict(profile=profile, tot=tot, states=d, gen=g, traces=ntr, kinds=kinds, viol=viol,
                nbad=len(mine), others=others, sample=sample)


# ---------------------------------------------------------------- design models
def job_model(name, cfg, timeout, workers, heap):
    t = time.time()
    try:
        rc, out = tlc(name + ".tla", cfg, workers=workers, heap=heap, timeout=timeout, c1=False)
    except ToolError:       # no verdict on the model in the time allowed: none on the code either
        return dict(model=name, cfg=cfg, ok=None, violated=False, states=0, gen=0, out="", secs=timeout, acts={})
    g, d = states(out)
    ok = "No error has been found" in out
    violated = "is violated" in out or "Temporal propert" in out
    acts = {}
    return dict(model=name, cfg=cfg, ok=ok, violated=violated, states=d, gen=g, out=out,
                secs=round(time.time() - t, 1), acts=acts)


# ---------------------------------------------------------------- known findings
def known():
    f = os.path.join(V, "known-findings.txt")
    res = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\w+) rule=(\S+) (.*)", l.strip())
            if m:
                res.append(m.groups())
    return res


def confirm(prop, line, tag):
    """Writes the replay file and lets TLC give the verdict on it as an invariant."""
    d = os.path.join(BUILD, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.ndjson" % (prop, tag))
    open(path, "w").write(line + "\n")
    if line.count('{"k":"') <= 1500:
        # as an invariant, with the error trace
        rc, out = tlc("Trace.tla", "Replay.cfg", env={"TRACE": path, "PROP": prop}, timeout=120)
        ok = "Invariant PropertyHolds is violated" in out
    else:
        rc, out = tlc("Trace.tla", "Trace.cfg", env={"TRACE": path}, timeout=120)
        ok = any(b[1] == prop for b in ((0, x[1]) for x in BAD.findall(re.sub(r"\s+", " ", out))))
    open(path + ".tlc.txt", "w").write(out)
    return path, ok


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = P.PROPS[prop]
    tag = "%s_%d" % (prop, os.getpid())
    for d in ("traces", "tlc", "replays", "scripts"):
        os.makedirs(os.path.join(BUILD, d), exist_ok=True)
        for f in glob.glob(os.path.join(BUILD, d, "*")):        # left behind by a killed run
            if time.time() - os.lstat(f).st_mtime > 3600:
                shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    binary = fresh_build("harness")
    log("built", binary)
    budget = spec.get("budget", P.BUDGET)[tier]
    jobs = []
    # chunks of programs, interleaved over the profiles
    per = []
    for profile, nq, nt, chunk in spec["profiles"]:
        n = nq if tier == "quick" else nt
        per.append([(profile, k, min(chunk, n - k)) for k in range(0, n, chunk)])
    while any(per):
        for q in per:
            if q:
                jobs.append(q.pop(0))
    results, models, errors, broken = [], [], [], []
    listed = {(q[0], q[1]) for q in known()}
    skipped = 0
    with cf.ThreadPoolExecutor(NPROC) as ex:
        futs = []
        for name, cfg, tmo, workers, heap in spec.get("models", {}).get(tier, []):
            futs.append(ex.submit(job_model, name, cfg, tmo, workers, heap))

        def traced(j):
            if time.time() - T0 > budget or broken:
                return None
            r = job_traces(binary, prop, j[0], seed, j[1], j[2], tag, spec.get("args", {}).get(j[0], ()))
            if any((prop, v[0]) not in listed for v in r["viol"]):
                broken.append(1)        # enough is known
            return r

        def replayed(j):
            import replay
            r = replay.job(binary, prop, j, seed, tag, tier, T0 + budget)
            if r and any((prop, v[0]) not in listed for v in r["viol"]):
                broken.append(1)
            return r

        for j in spec.get("replays", {}).get(tier, []):
            futs.append(ex.submit(replayed, j))
        futs += [ex.submit(traced, j) for j in jobs]
        for f in futs:
            try:
                r = f.result()
            except ToolError as e:
                errors.append(str(e))
                continue
            if r is None:
                skipped += 1
            elif "model" in r:
                models.append(r)
                log("model", r["model"], r["cfg"], r["states"], "states", r["secs"], "s", {True: "ok", None: "unfinished"}.get(r["ok"], "NOT OK"))
            else:
                results.append(r)
    viol = []
    for r in models:
        if r["ok"] is False:
            errors.append("design model %s %s: %s" % (r["model"], r["cfg"], r["out"][-2500:]))
    found = [(r["profile"],) + v for r in results for v in r["viol"]]
    kn = known()
    shown = set()
    for profile, rule, x, line in sorted(found, key=lambda v: len(v[3])):
        t = json.loads(line)[0]
        k = [q for q in kn if q[0] == prop and q[1] == rule]
        if k:
            if rule not in shown:
                print("KNOWN-FINDING: property=%s %s" % (prop, k[0][2]))
            shown.add(rule)
            continue
        if len(viol) >= 3 or sum(v[0] == rule for v in viol):
            continue
        path, ok = confirm(prop, line, "%s-%d-%d" % (profile, t["seed"], t["idx"]))
        if not ok:
            errors.append("violation not confirmed by TLC: " + path)
            continue
        viol.append((rule, path, profile, t))
    nruns = sum(r["tot"]["runs"] for r in results)
    kinds = {}
    for r in results:
        for k, v in r["kinds"].items():
            kinds[k] = kinds.get(k, 0) + v
    byprof = {}
    for r in results:
        b = byprof.setdefault(r["profile"], dict(programs=0, distinct_traces=0, events=0, switches=0))
        b["programs"] += r["tot"]["runs"]
        b["distinct_traces"] += r["traces"]
        b["events"] += r["states"]
        b["switches"] += r["tot"]["switches"]
    edges = 0
    for r in results:
        edges |= r["tot"].get("edges", 0)
    samples = []
    for r in results:
        if r["sample"] and len(samples) < 2 and all(s["profile"] != r["profile"] for s in samples):
            samples.append(r["sample"])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["states"] for r in models) + sum(r["states"] for r in results),
            "transitions": sum(r["gen"] for r in models) + sum(r["gen"] - r["traces"] for r in results),
            "traces_validated_against_impl": sum(r["traces"] for r in results),
            "samples": samples,
            "programs_run_on_the_real_code": nruns,
            "events_in_traces": kinds,
            "by_profile": byprof,
            "async_io_edges": {"reached": bin(edges).count("1"),
                               "compiled_with_unwinding": max([r["tot"].get("nedges", 0) for r in results] or [0])},
            "design_models": [{"model": r["model"], "config": r["cfg"], "distinct_states": r["states"],
                               "generated": r["gen"], "seconds": r["secs"], "finished": r["ok"] is not None} for r in models],
            "replays": [r["replay"] for r in results if "replay" in r],
            "chunks_skipped_for_time": skipped,
            "rules_broken": sorted({v[0] for v in viol}),
        },
        "assumptions": P.ASSUME + spec.get("assume", []),
        "wall_s": round(time.time() - T0, 1),
        "violations": sum(r["nbad"] for r in results),
    }
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    log("%d programs, %d distinct traces, %d events" % (nruns, ev["coverage"]["traces_validated_against_impl"],
                                                       sum(r["states"] for r in results)))
    if viol:
        for rule, path, profile, t in viol[:3]:
            print("rule %s broken by: %s --profile %s --seed %d --from %d --n 1" % (rule, binary, profile, t["seed"], t["idx"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for e in errors[:5]:
            print("ERROR:", e)
        return 2
    if not results:
        print("ERROR: nothing was explored")
        return 2
    print("HELD property=%s" % prop)
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print("ERROR:", e)
        sys.exit(2)
