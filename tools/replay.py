"""From the specification to the code: covers the state graph of a script model with histories.

TLC explores IoScript / TimerScript and prints every transition (source, target, label); the graph is
covered by walks from the initial state; every walk becomes a script that the harness plays in the real
code.  The traces are judged by the contract like all others; steps where the code does something else
than the design predicts are counted ("drift"), which is no violation.
"""
import os
import random
import re
import time
from collections import deque


def edges(out):
    """TLC's output -> (initial state, {state: [(target, label)]})."""
    g, init, seen = {}, None, set()
    for a, b, l in re.findall(r'"E (\S+) (\S+) (\S+)"', out):
        if init is None:
            init = a
        if (a, l) in seen:
            continue
        seen.add((a, l))
        g.setdefault(a, []).append((b, l))
    for v in g.values():
        v.sort(key=lambda e: e[1])
    return init, g


def walks(init, g, length, seed):
    """Walks from `init`, each of about `length` steps, that cover every transition."""
    rnd = random.Random(seed)
    todo = {}
    for a, v in sorted(g.items()):
        v = list(v)
        rnd.shuffle(v)
        todo[a] = v
    parent = {init: None}
    order = []
    q = deque([init])
    while q:
        a = q.popleft()
        order.append(a)
        for b, l in g.get(a, ()):
            if b not in parent:
                parent[b] = (a, l)
                q.append(b)

    def path(b):
        p = []
        while parent[b]:
            a, l = parent[b]
            p.append(l)
            b = a
        return p[::-1]

    def near(a, depth):
        """labels to the nearest state with something left to do"""
        front, seen = [(a, ())], {a}
        for _ in range(depth):
            nxt = []
            for s, p in front:
                for b, l in g.get(s, ()):
                    if b in seen:
                        continue
                    if todo.get(b):
                        return b, p + (l,)
                    seen.add(b)
                    nxt.append((b, p + (l,)))
            front = nxt
            if len(seen) > 400:
                break
        return None

    res = []
    rnd.shuffle(order)
    for a0 in order:
        while todo.get(a0):
            w, a = path(a0), a0
            n0 = len(w)
            while len(w) - n0 < length:
                if todo.get(a):
                    b, l = todo[a].pop()
                    w.append(l)
                    a = b
                else:
                    f = near(a, 4)
                    if not f:
                        break
                    a = f[0]
                    w.extend(f[1])
            res.append(w)
    return res


def io_script(slots, nh, later, flt, walk, rnd):
    """One walk of IoScript as a script line. slots: [(h, d, f)]."""
    ni = 0                      # instances of waits
    nhi = 0                     # instances of handles
    inst, hin = {}, {}
    out = []
    for h in range(1, nh + 1):
        if not (later and h == nh):
            nhi += 1
            hin[h] = nhi
            out.append("N,%d,%d" % (nhi, rnd.randrange(2)))
    for lab in walk:
        m = re.match(r"(\w)(\w*)>(\w*):([\d,]*)$", lab)
        op, arg, res, wk = m.groups()
        if op == "P":
            s = int(arg[:-1])
            v = "ab".index(arg[-1])
            h, d, f = slots[s - 1]
            if s not in inst:
                ni += 1
                inst[s] = ni
                if f == 1:
                    out.append("F,%d,%d,%d,%d" % (ni, hin[h], d - 1, rnd.randrange(2)))
            t = "P,%d,%d" % (inst[s], v) if f == 1 else "G,%d,%d,%d,%d" % (inst[s], hin[h], d - 1, v)
            t += "=" + res[0]
        elif op == "D":
            t = "D,%d" % inst.pop(int(arg))
        elif op == "H":
            h = int(arg)
            t = "%s,%d" % (rnd.choice("HHI"), hin.pop(h))
            for s in [s for s in inst if slots[s - 1][0] == h]:
                del inst[s]
        elif op == "N":
            nhi += 1
            hin[int(arg)] = nhi
            t = "N,%d,%d" % (nhi, rnd.randrange(2))
        elif op == "R":
            t = "R,%d,%s" % (hin[int(arg[:-3])], ",".join(arg[-3:]))
        elif op == "F":
            t = "X,%d" % hin[int(arg)]
        else:
            t = op
        w = []
        for k in [int(x) for x in wk.split(",") if x]:
            w.append(str(2 * inst[(k + 1) // 2] + (k + 1) % 2))
        out.append(t + ":" + ".".join(w))
    return "%d %d 0 %d %s" % (nhi, ni, 1 if flt else 0, " ".join(out))


UNIT = 100          # microseconds for a unit of time


def timer_script(walk, rnd):
    """One walk of TimerScript as a script line."""
    nt, inst, out = 0, {}, []

    def spec(k):
        if k == "O":
            return rnd.choice(("1,-1", "3,-1"))
        n = int(k[1:]) * UNIT
        if k[0] == "A":
            return "%d,%d" % (rnd.choice((1, 2)), n)
        return "3,%d" % n if rnd.random() < 0.5 else "4,%d,%d" % (n, n)

    for lab in walk:
        op, arg, res, wk = re.match(r"(\w)(\w*)>(\w*):([\d,]*)$", lab).groups()
        t = int(arg[0]) if arg else 0
        w = []
        for k in [int(x) for x in wk.split(",") if x]:
            w.append("%d" % (2 * inst.get((k + 1) // 2, 0) + (k + 1) % 2))
        if op == "N":
            nt += 1
            inst[t] = nt
            k = arg[1:]
            if k == "O" and rnd.random() < 0.3:
                s = "TN,%d,0" % nt
            else:
                s = "TN,%d,%s" % (nt, spec(k))
        elif op == "P":
            s = "TP,%d,%d,%d=%s" % (inst[t], "ab".index(arg[-1]), rnd.randrange(2), res)
        elif op == "S":
            s = "TS,%d,%s" % (inst[t], spec(arg[1:]))
        elif op == "D":
            s = "TD,%d" % inst[t]
        elif op == "A":
            s = "A,%d" % UNIT
        else:
            s = op
        out.append(s + ":" + ".".join(w))
        if inst and rnd.random() < 0.1:
            out.append("TQ,%d" % rnd.choice(sorted(inst.values())))
    return "0 0 %d 0 %s" % (nt, " ".join(out))


def const(spec_dir, cfg, name):
    t = open(os.path.join(spec_dir, cfg)).read()
    m = re.search(r"^\s*%s\s*(=|<-)\s*(\S+)" % name, t, re.M)
    return m.group(2) if m else None


def slots_of(spec_dir, name):
    t = open(os.path.join(spec_dir, "MCIoScript.tla")).read()
    m = re.search(r"^%s == <<(.*)>>" % name, t, re.M)
    return [(int(h), int(d), 1 if k == "F" else 0) for k, h, d in re.findall(r"([FP])\((\d), (\d)\)", m.group(1))]


def scripts(spec_dir, module, cfg, out, length, seed):
    """TLC's output for a script model -> script lines, and the number of transitions."""
    init, g = edges(out)
    ws = walks(init, g, length, seed)
    rnd = random.Random(seed)
    n = sum(len(v) for v in g.values())
    if module == "MCIoScript":
        sl = slots_of(spec_dir, const(spec_dir, cfg, "SLOTS"))
        nh = int(const(spec_dir, cfg, "NH"))
        later = const(spec_dir, cfg, "LATER") == "TRUE"
        flt = const(spec_dir, cfg, "FLT") == "TRUE"
        return [io_script(sl, nh, later, flt, w, rnd) for w in ws], n, len(g)
    if module == "MCTimerScript":
        return [timer_script(w, rnd) for w in ws], n, len(g)
    raise ValueError(module)


CHUNK = 800


def job(binary, prop, j, seed, tag, tier, deadline):
    """Explores a script model, plays the walks that cover it in the real code, and judges the traces.

    j: (module, name, seconds for TLC, workers, heap, seeds); seed 0 plays step by step, the others
    overlap neighbouring steps under random schedules.
    """
    import check
    module, name, tmo, workers, heap, seeds = j
    cfg = "models/rs_%s.cfg" % name
    t0 = time.time()
    rc, out = check.tlc(module + ".tla", cfg, workers=workers, heap=heap, timeout=tmo, c1=False)
    if "No error has been found" not in out:
        raise check.ToolError("script model %s: %s" % (cfg, re.sub(r'"E [^\n]*\n', "", out)[-2000:]))
    gen, distinct = check.states(out)
    lines, ntr, nst = scripts(check.SPEC, module, cfg, out, 40, seed)
    del out
    d = os.path.join(check.BUILD, "scripts")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s_%s.scr" % (tag, name))
    with open(f, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    secs = round(time.time() - t0, 1)
    res = None
    played = [0] * len(seeds)
    for k, sd in enumerate(seeds):
        for frm in range(0, len(lines), CHUNK):
            if time.time() > deadline:
                break
            n = min(CHUNK, len(lines) - frm)
            r = check.job_traces(binary, prop, "script", sd and sd + 1000 * seed, frm, n, tag + "_" + name,
                                 ("--script", f))
            played[k] += n
            if res is None:
                res = r
                continue
            for a in ("runs", "written", "events", "steps", "switches", "early"):
                res["tot"][a] += r["tot"][a]
            res["tot"]["edges"] |= r["tot"]["edges"]
            for a in ("states", "gen", "traces", "nbad"):
                res[a] += r[a]
            for a in ("kinds", "others"):
                for x, y in r[a].items():
                    res[a][x] = res[a].get(x, 0) + y
            res["viol"] += r["viol"]
    if res is None:
        return None
    res["replay"] = {"model": module, "config": cfg, "states": nst, "transitions": ntr, "scripts": len(lines),
                     "played_step_by_step": played[0], "played_overlapped": sum(played[1:]),
                     "steps_unlike_the_design": res["kinds"].get("drift", 0),
                     "seconds_to_generate": secs}
    if not res["viol"]:
        os.remove(f)
    return res
