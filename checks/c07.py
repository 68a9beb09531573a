"""C07: communication modes, message timing and the background thread."""
import json, random, re
import smoothgen
from vlib import die

KINDS = ["gs", "gs", "bs", "bs", "dyn", "di", "hpt"]


def schedules(c):
    """orders of the operations of the two threads: all behaviours of the model, with and without
    the lock in the destructor (bounded length)"""
    c.model("HandOver")
    c.model("HandOver", cfg="HandOverSpurious.cfg")
    out = []
    blocked = 0
    for cfg in ("HandOverGen.cfg", "HandOverGenUnlocked.cfg"):
        rc, o = c.tlc("HandOver", cfg)
        for m in re.finditer(r'<<\s*"SCHEDULE",\s*<<(.*?)>>,\s*<<(.*?)>>,\s*"(\w+)"\s*>>', o, re.S):
            out.append((re.findall(r'"(\w+)"', m.group(1)), "".join(re.findall(r'"(\w)"', m.group(2)))))
            blocked += m.group(3) == "blocked"
    if len(out) < 100 or not blocked:
        die("HandOver produced too few schedules")
    c.cov["model_schedules"] = len(out)
    c.cov["model_schedules_that_block_without_the_lock"] = blocked
    return out


def handover(c, rng):
    sc = []
    for prog, s in schedules(c):
        sc.append({"np": 1, "prog": prog, "sched": s, "jobus": [rng.choice([0, 0, 300])], "limit": 3000, "key": "handover"})
    for k in range(c.pick(150, 3000)):
        prog = []
        for _ in range(rng.randint(0, 4)):
            prog += ["start", "wait"] + (["wait"] if rng.random() < 0.2 else [])
        if rng.random() < 0.3:
            prog = ["wait"] + prog
        s = ""
        while len(s) < 6 * len(prog) + 8:
            s += rng.choice("MW") * rng.randint(1, 5)
        sc.append({"np": 1, "prog": prog + ["destroy"], "sched": s, "jobus": [rng.choice([0, 0, 200, 1500]) for _ in range(2)], "limit": rng.choice([1000, 3000]), "key": "handover"})
    rng.shuffle(sc)
    res = c.harness("handover", sc, stall=150)
    if res and "skipped" in res[0][1][0]:
        c.cov["background_thread_alone"] = "left out: " + res[0][1][0]["skipped"]
        return
    tr = [{"id": s["sid"], "key": "handover", "scen": s, "events": r["ev"]} for s, (r,) in res]
    c.validate("HandOverTrace", tr, "background thread")
    c.cov["background_thread_runs"] = len(tr)
    c.cov["operations_in_scheduled_order"] = sum(r["hits"] for s, (r,) in res)
    c.cov["operations_scheduled"] = sum(r["len"] for s, (r,) in res)


def modes(c, rng):
    sc = []
    n = c.pick(70, 900)
    for k in range(n):
        base = smoothgen.one(rng, k, c.seed + 50, True, kind=rng.choice(KINDS))
        vs = [(0, 0, 0), (1, 1, 0), (1, 1, 1500), (0, 1, 1500)] + rng.sample([(1, 0, 0), (0, 1, 0), (1, 0, 1500), (0, 0, 1500), (1, 1, 4000)], 1)
        for v, (th, ov, dl) in enumerate(vs):
            s = json.loads(json.dumps(base))
            s["thread"], s["overlap"], s["base"], s["v"] = th, ov, k, v
            for q in ("rsm", "psm"):
                if q in s:
                    s[q]["thread"], s[q]["overlap"] = th, ov
            s.pop("delay", None)
            if dl:
                s["delay"], s["dseed"] = dl, 1000 * c.seed + 10 * k + v
            s["nocols"] = 1
            sc.append(s)
    res = c.harness("smooth", sc, tasks=True)
    by = {}
    for s, rs in res:
        by.setdefault(s["base"], []).append((s, rs))
    tr = []
    for k, runs in sorted(by.items()):
        runs.sort(key=lambda x: x[0]["v"])
        if runs[0][0]["v"]:
            continue
        s, rs = runs[0]
        t = {"id": k, "key": "modes-" + s["kind"], "n": len(s["pat"]), "bs": s["bs"], "own": [r["own"] for r in rs], "scen": [x[0] for x in runs], "runs": []}
        for s1, rs1 in runs:
            ev = []
            for i, o in enumerate(s1["ops"]):
                e = {"ur": o["ur"]}
                for f in ("x1", "b1", "r1"):
                    e[f] = [r["ev"][i][f] for r in rs1]
                    e[f + "st"] = [r["ev"][i][f + "st"] for r in rs1]
                ev.append(e)
            t["runs"].append({"ev": ev, "ranks": [{q: r[q] for q in ("open", "stray")} for r in rs1]})
        tr.append(t)
    if tr or not c.violations:
        c.validate("ModesTrace", tr, "communication modes")
    c.cov["modes"] = {k: sum(len(t["runs"]) for t in tr if t["key"] == k) for k in sorted({t["key"] for t in tr})}
    c.samples = [{"kind": t["key"], "modes": [(s["thread"], s["overlap"], s.get("delay", 0)) for s in t["scen"]]} for t in tr[::max(1, len(tr) // 4)]]


def run(c):
    rng = random.Random(c.seed * 1000 + 7)
    handover(c, rng)
    modes(c, rng)
    c.assumptions = ["a job is handed over only after the last one was waited for (what the smoothers do)",
                     "schedules are imposed with gates of limited patience at the lock, wait, notify and unlock operations: an order the code does not allow is given up",
                     "iterates of two modes are compared with 1e-10"]
    c.finish()
