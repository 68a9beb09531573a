"""C15: the stationary solver: scripted residuals (call sequences from the specification) and real multigrid iterations."""
import json, random, re
import c08


def behaviours(c, n):
    rc, out = c.tlc("SolverModel", "SolverGen.cfg", simulate="num=%d" % n, workers=1, args=["-depth", "80", "-seed", str(c.seed)])
    res = [json.loads(json.loads(m)) for m in re.findall(r'<<"BEHAVIOUR", (".*")>>', out)]
    if len(res) < n // 2:
        from vlib import die
        die("SolverModel produced no behaviours: " + out[-1500:])
    return res


def solve(rng, par, s):
    how = rng.choice(["res", "res", "res", "short", "mult", "trans", "add", "transadd"])
    direct = how in ("res", "short")
    o = {"op": "solve", "l": s["emb"], "how": how, "fac": rng.choice([1, -1, 0.5, 0, 2]), "bst": rng.randint(0, 1) if par else 1, "xst": rng.randint(0, 1) if par and how != "res" else 1,
         "buf": rng.randint(0, 1), "print": int(rng.random() < 0.2), "max": rng.choice([0, 1, 2, 3, 5, 8, 12]), "tol": rng.choice([0, 0, 0.9, 0.5, 0.1, 1e-2, 1e-4, 1e-6]), "save": rng.randint(0, 1),
         "init": int(direct and rng.random() < 0.3), "xz": 0, "ru": 0}
    if direct and rng.random() < 0.3:
        o["xz"] = 1
    if how == "res" and rng.random() < 0.4 and (o["xz"] or not o["init"]):
        o["ru"] = 1
    if o["init"] and not o["ru"] or how in ("mult", "trans"):
        o["junk"] = 2 if how == "res" else rng.choice([0, 1]) if not o["xz"] else 0
    if o.get("junk") == 2:
        o["junk"] = 0
    return o


def run(c):
    rng = random.Random(c.seed * 1000 + 15)
    c.model("SolverModel", args=["-deadlock"])
    beh = behaviours(c, c.pick(1500, 15000))
    c.cov["spec_generated_call_sequences"] = len(beh)
    res = c.harness("script", [{"np": 1, "calls": b, "key": "script", "unsave": k % 2} for k, b in enumerate(beh)], stall=150)
    c.validate("SolverTrace", [{"id": s["sid"], "key": "script", "scen": s, "events": rs[0]["calls"]} for s, rs in res], "solver")
    sc = []
    for k in range(c.pick(400, 4000)):
        par = k % 5 >= 2
        s = c08.one(rng, k + 9000000, c.seed, par)
        if s["coarse"] in ("none", "null") and rng.random() < 0.7:
            s["coarse"] = "op" if par or rng.random() < 0.3 else "inv"
        s["ops"] = [solve(rng, par, s) for _ in range(6)]
        sc.append(s)
    res = c.harness("cycle", sc, stall=150, tasks=True)
    tr = [c08.trace(s, rs) for s, rs in res]
    for t in tr:
        t["events"] = t["events"][1:]         # the parts of the cycle are C08's subject
    for k in range(0, len(tr), 1000):
        c.validate("CycleTrace", tr[k:k + 1000], "iteration", cfg="CycleTrace.cfg", heap="8g")
    sv = [e["sv"][-1] for t in tr for e in t["events"] if e["op"] == "solve"]
    c.cov["solver_calls"] = len(sv)
    c.cov["converged_calls"] = sum(v["conv"] for v in sv)
    c.samples = [{"script": b} for b in beh[:2]] + [{"chain": t["key"], "steps": [len(e["sv"][-1]["xs"]) - 1 for e in t["events"] if e["op"] == "solve"]} for t in tr[:3]]
    c.assumptions = ["start flags are true when given", "a residual norm within 1e-9 (relative) of the tolerance may count either way"]
    c.finish()
