"""What each property's check runs: profiles of programs for the real code (name, programs in the
quick tier, in the thorough tier, programs per chunk), design models and replays."""

BUDGET = {"quick": 90, "thorough": 700}

KINDS = ["pc", "pr", "wake", "collect", "sd", "hd", "new", "dup", "tnew", "tpc", "tpr", "tsr", "td", "idle",
         "bc", "bp", "br", "wbs", "att", "opr", "wfail", "panic", "dead", "unwound", "add", "mod", "del",
         "close", "rdy", "slot", "spawn", "into", "wf", "ep", "epx", "shut", "nnew", "npc", "npr", "nd", "acc", "cli",
         "natt", "accend", "dend", "hcx", "drift"]

# profiles that need a process of their own for every program
FRESH = {"init"}

# what a crash or hang of the whole process in a profile counts against
CRASH = {
    "io": ["C01", "C02"], "cancel": ["C03"], "life": ["C04"], "timer": ["C05", "C06", "C07", "C08"],
    "tset": ["C05", "C06", "C07", "C08"], "burst": ["C06", "C07"], "bo": ["C09", "C10"],
    "mixed": ["C11"], "drive": ["C11"], "wakers": ["C12"], "ops": ["C13"], "faults": ["C16"], "init": ["C17"],
    "data": ["C14"], "conn": ["C15"],
    "script": ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C16"],
}

ASSUME = [
    "threads are interleaved at every basic block of async-io, parking, concurrent-queue and async-lock and at every "
    "system call, under sequential consistency",
    "the OS poller is a model of epoll (one-shot interests, notification) inside the polling crate's API; time is virtual",
]

REAL = ("data and conn programs move real bytes through the kernel's loopback TCP, UDP and Unix sockets and pipes; the "
        "poller model asks the kernel for readiness")


def prof(*items):
    return [(n, q, t, c) for n, q, t, c in items]


PROPS = {
    "C01": dict(profiles=prof(("io", 24000, 400000, 1000), ("cancel", 9000, 150000, 1000), ("life", 9000, 100000, 1000),
                              ("mixed", 9000, 100000, 750))),
    "C02": dict(profiles=prof(("io", 30000, 500000, 1000), ("life", 15000, 200000, 1000), ("cancel", 6000, 80000, 1000))),
    "C03": dict(profiles=prof(("cancel", 36000, 600000, 1000), ("io", 9000, 100000, 1000), ("ops", 9000, 100000, 1000))),
    "C04": dict(profiles=prof(("life", 42000, 600000, 1000), ("io", 9000, 100000, 1000))),
    "C05": dict(profiles=prof(("timer", 30000, 500000, 1500), ("tset", 30000, 500000, 1500))),
    "C06": dict(profiles=prof(("timer", 27000, 400000, 1500), ("tset", 22500, 400000, 1500), ("burst", 144, 2000, 6),
                              ("mixed", 6750, 100000, 750))),
    "C07": dict(profiles=prof(("tset", 36000, 600000, 1500), ("timer", 27000, 400000, 1500), ("burst", 72, 1000, 6))),
    "C08": dict(profiles=prof(("tset", 40500, 600000, 1500), ("timer", 22500, 400000, 1500))),
    "C09": dict(profiles=prof(("bo", 40500, 700000, 1500), ("mixed", 9000, 100000, 750))),
    "C10": dict(profiles=prof(("bo", 45000, 800000, 1500), ("mixed", 9000, 100000, 750))),
    "C11": dict(profiles=prof(("drive", 24000, 400000, 1000), ("mixed", 24000, 400000, 1000))),
    "C12": dict(profiles=prof(("wakers", 42000, 700000, 1000),)),
    "C13": dict(profiles=prof(("ops", 45000, 800000, 1500), ("data", 4500, 80000, 250),
                              ("conn", 3000, 50000, 250))),
    "C14": dict(profiles=prof(("data", 12000, 250000, 250),), assume=[REAL]),
    "C15": dict(profiles=prof(("conn", 12000, 250000, 250), ("data", 1500, 30000, 250)), assume=[REAL]),
    "C16": dict(profiles=prof(("faults", 42000, 700000, 1000),)),
    "C18": dict(profiles=prof(("io", 12000, 200000, 1000), ("cancel", 12000, 200000, 1000), ("timer", 12000, 200000, 1500),
                              ("tset", 9000, 100000, 1500), ("mixed", 9000, 100000, 750))),
    "C17": dict(profiles=prof(("init", 1440, 12000, 30),)),
}


# design models (module, configuration, workers, seconds allowed): quick, and in addition thorough
def _m(mod, names, w, tmo):
    return [(mod, "models/%s.cfg" % n, tmo, w, "3g" if w < 4 else "6g") for n in names.split()]


def _models(mod, quick, thorough):
    return {"quick": _m(mod, quick, 2, 240), "thorough": _m(mod, quick + " " + thorough, 4, 650)}


for _c, _a in {
        "C01": ("MCIo", "io_A", "io_live_A io_B_two"), "C02": ("MCIo", "io_B", "io_B_two io_live_B"),
        "C03": ("MCIo", "io_C", "io_live_C io_D"), "C04": ("MCIo", "io_A_hup", "io_E"),
        "C05": ("TimerDesign", "tm_s1", "tm_s2 tm_q1"), "C06": ("TimerDesign", "tm_s1", "tm_s2 tm_q3"),
        "C07": ("TimerDesign", "tm_s1", "tm_s2 tm_s3"), "C08": ("TimerDesign", "tm_s3", "tm_s2 tm_q3"),
        "C09": ("MCDriver", "dr_l1", "dr_s1 dr_s2 dr_l5 dr_l6"), "C10": ("MCDriver", "dr_s4", "dr_s1 dr_s2 dr_s3"),
        "C11": ("MCDriver", "dr_l2 dr_l3 dr_l4 dr_l8", ""), "C16": ("MCIo", "io_B_flt", "io_A_flt"),
        "C18": ("MCIo", "io_spin_B", "io_spin_A")}.items():
    PROPS[_c]["models"] = _models(*_a)


# models whose transitions are covered by histories played in the real code: quick, and in addition thorough
def _r(names, tier):
    res = []
    for n in names.split():
        mod = "MCTimerScript" if n[0] == "T" else "MCIoScript"
        res.append((mod, n, 240, 2 if tier == "quick" else 4, "3g", (0, 1) if tier == "quick" else (0, 1, 2, 3)))
    return res


for _c, _a in {
        "C01": ("b e d f", "g c h j s k"), "C02": ("b e m n o", "g s h"), "C03": ("d e b", "c s j"), "C04": ("m n o", "f"),
        "C05": ("Tb Tc", "Ta Td Te Tf Tg"), "C06": ("Ta Tc Te", "Tb Td Tf Tg"), "C07": ("Td Tb", "Ta Tc Te Tf Tg"),
        "C08": ("Ta Tc Tb", "Td Te Tf Tg"), "C16": ("p q", "k"), "C18": ("e f Ta", "g Te")}.items():
    PROPS[_c]["replays"] = {"quick": _r(_a[0], "quick"), "thorough": _r(_a[0] + " " + _a[1], "thorough")}

TECHNIQUE = ("TLA+ contract (Contract.tla) checked by TLC on traces recorded from the real code under a controlled "
             "scheduler, virtual clock and modelled OS poller")
NOTE = ("TLC evaluates the property's rules of the TLA+ contract after every event of every recorded execution of the "
        "unmodified library; executions are random programs under random and PCT schedules at basic-block granularity. "
        "Trusted: the contract, the epoll model, the scheduler; weak-memory effects are not explored.")
NA = {}
