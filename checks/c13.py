"""C13: applications of assembled preconditioners against one fixed symmetric positive operator."""
import collections
import json
import random
import pcgen


def trace(s, rs):
    ev = []
    for k, e in enumerate(rs[0]["events"]):
        x = {q: e[q] for q in ("op", "fac", "x", "x0", "unit")}
        for q in ("y", "yst", "b", "bst"):
            x[q] = [r["events"][k][q] for r in rs]
        ev.append(x)
    contracts = "bgs" not in s["key"] and not s.get("bddc")
    return {"id": s["sid"], "key": s["key"], "scen": s, "n": rs[0]["n"], "ids": [r["ids"] for r in rs], "free": sorted({i for r in rs for i in r["free"]}), "events": ev,
            "contracts": int(contracts), "acol": [[r["acol"][j] for r in rs] for j in range(rs[0]["n"])] if contracts else [], "ast": [r["ast"] for r in rs]}


def one(rng, k, par):
    np = rng.choice([2, 3, 3, 4, 5]) if par else 1
    s = pcgen.problem(rng, np)
    s.update({"kind": "operator", "np": np, "kw": pcgen.options(rng, s), "via": rng.choice(["pc", "pc", "amg"]), "key": "%s/%d" % (s["problem"], np)})
    if par and s["kw"].get("ngs_amg_sm_type") == "bgs":
        s["key"] += "/bgs"
    kw = {q[8:]: v for q, v in s["kw"].items()}
    if s["problem"] == "el" and kw.get("energy") == "triv" and kw.get("prol_type") != "piecewise" and kw.get("sp_omega", 1) == 1:
        s["key"] += "/triv"
    s["ops"] = pcgen.calls(rng, 14, np > 1)
    return s


def fam(rng, k, par):
    np = rng.choice([2, 3, 3, 4, 5]) if par else 1
    s, opt = pcgen.family(rng, np)
    kw = pcgen.options(rng, s)
    kw.update({"ngs_amg_" + q: v for q, v in opt.items()})
    s.update({"kind": "operator", "np": np, "kw": kw, "via": "pc" if s.get("bddc") else rng.choice(["pc", "amg"]), "key": "%s/%s/%s/%d" % (s["family"], s["problem"], s["space"], np)})
    # known findings of the other batch are left out here
    if par and kw.get("ngs_amg_sm_type") == "bgs":
        kw["ngs_amg_sm_type"] = "gs"
    if s["problem"] in ("el", "rot") and kw.get("ngs_amg_energy") == "triv":
        kw["ngs_amg_energy"] = "alg"
    s["ops"] = pcgen.calls(rng, 10, np > 1)
    if par:
        s["tm"] = 0
    if s.get("bddc"):        # NGSolve's operator around it has no transposed
        s["ops"] = [dict(o, op={"trans": "mult", "transadd": "add"}.get(o["op"], o["op"])) for o in s["ops"]]
    return s


def run(c):
    rng = random.Random(c.seed * 1000 + 13)
    sc = json.load(open(__file__.replace('.py', '_fixed.json'))) + [one(rng, k, k % 3 > 0) for k in range(c.pick(500, 12000))]
    sc += [fam(rng, k, k % 5 > 1) for k in range(c.pick(300, 6000))]
    res = c.harness("pc", sc, stall=150, tasks=True)
    single = sum("nolevels" in r for s, rs in res for r in rs[:1])
    tr = [trace(s, rs) for s, rs in res if "nolevels" not in rs[0]]
    c.cov["no_coarse_level"] = single
    c.cov["kinds_of_problems"] = dict(sorted(collections.Counter(s.get("family", "lowest order") for s, rs in res).items()))
    for k in range(0, len(tr), 100):
        c.validate("OperatorTrace", tr[k:k + 100], "application", cfg="OperatorTrace.cfg", heap="8g")
    c.cov["applications"] = sum(len(t["events"]) for t in tr)
    c.assumptions = ["not posed: p2emb (experimental, crashes), reordered compound spaces and elmat beyond scalar order 1 (not implemented), BDDC of spaces with several components per unknown (NGSolve does not support it), Stokes (the README's scope is H1 and elasticity)"]
    c.samples = [{"problem": t["key"], "unknowns": t["n"]} for t in tr[:3]]
    c.finish()
