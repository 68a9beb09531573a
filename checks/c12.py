"""C12: levels of hierarchies built under binding limits, on all ranks."""
import random
import pcgen

LOOSE = {"max_levels": 50, "max_coarse_size": 0, "min_coarse_size": 0}


def trace(s, rs):
    par = s["np"] > 1
    ev = []
    for k, b in enumerate(rs[0]["builds"]):
        a = [r["builds"][k] for r in rs]
        fac = round(float(b["thresh"]) * 1000) if b["redist"] else 0
        # redistribution depends on the largest coarse size, so it changes what coarsening offers
        same = not (par and b["redist"] and b["lim"]["max_coarse_size"] != LOOSE["max_coarse_size"])
        ev.append({"op": "build", "errs": b["errs"], "lv": [x["levels"] for x in a], "nlev": [x["nlev"] for x in a], "nds": [x["nds"] for x in a], "same": int(same),
                   "lim": {"maxl": b["lim"]["max_levels"], "maxc": b["lim"]["max_coarse_size"], "minc": b["lim"]["min_coarse_size"], "fac": fac}})
    return {"id": s["sid"], "key": s["key"], "scen": s, "np": s["np"], "nv": rs[0]["nv"], "whole": int(not par and not s["mass"] and s["coef"] == "one"), "events": ev}


def one(rng, k, par):
    np = rng.choice([2, 3, 3, 4, 5]) if par else 1
    s = pcgen.problem(rng, np, big=3)
    if rng.random() < 0.7:
        s["size"] = rng.choice([[6, 6], [10, 4], [15, 2], [8, 8], [30, 1]] if s["dim"] == 2 else [[3, 3, 3], [1, 1, 12], [2, 2, 6], [4, 4, 2]])
        n = s["size"][0] * s["size"][1] * (s["size"] + [1])[2]
        s["cells"] = pcgen.cells(rng, s["dim"], s["size"], rng.randint(max(n // 2, 2 * np), n))
        if not any(q[0] == 0 for q in s["cells"]):
            s["mass"] = 1
    s["kw"] = {q: v for q, v in pcgen.options(rng, s).items() if q[8:] not in ("max_coarse_size", "max_levels")}
    s["limits"] = dict(LOOSE) if par else dict(LOOSE, rd_crs_thresh=2)
    redist = s["kw"].get("ngs_amg_enable_redist", True)
    s["vary"] = ["n", "max", "min", "thresh", "all"] if not par else ["n", "min", "max"]
    rng.shuffle(s["vary"])
    s.update({"kind": "levels", "np": np, "key": "%s/%d/%d" % (s["problem"], np, int(redist)), "variants": 5})
    return s


def run(c):
    c.model("LevelsModel", "LevelsModel.cfg")
    c.model("LevelsModel", "LevelsModelNoVote.cfg", expect="Invariant Agree is violated")
    rng = random.Random(c.seed * 1000 + 12)
    res = c.harness("pc", [one(rng, k, k % 2 > 0) for k in range(c.pick(600, 12000))], stall=150)
    tr = [trace(s, rs) for s, rs in res]
    for k in range(0, len(tr), 200):
        c.validate("LevelsTrace", tr[k:k + 200], "hierarchy", cfg="LevelsTrace.cfg")
    c.cov["hierarchies"] = sum(len(t["events"]) for t in tr)
    c.cov["without_coarse_level"] = sum(any(e["errs"]) for t in tr for e in t["events"])
    c.cov["most_levels"] = max(len(x) for t in tr for e in t["events"] for x in e["lv"])
    c.cov["ranks_left"] = sum(any(x and x[-1]["in"] == 0 for x in e["lv"]) for t in tr for e in t["events"])
    c.samples = [{"problem": t["key"], "vertices": t["nv"], "limits": [e["lim"] for e in t["events"][:2]], "levels": [[q["glob"] for q in e["lv"][-1]] for e in t["events"][:2]]} for t in tr[:3]]
    c.finish()
