"""C03: vectors to their owners and back (DCCMap)."""
import json, random, re
import c01


def behaviours(c, n):
    """call sequences generated by TLC from the specification OwnershipGen"""
    rc, out = c.tlc("OwnershipGen", "OwnershipGen.cfg", simulate="num=%d" % n, workers=1, args=["-depth", "120", "-seed", str(c.seed)])
    res = [json.loads(json.loads(m)) for m in re.findall(r'<<"BEHAVIOUR", (".*")>>', out)]
    if len(res) < n:
        from vlib import die
        die("OwnershipGen produced no behaviours: " + out[-1500:])
    return res


def scenarios(c):
    rng = random.Random(c.seed * 1000 + 3)
    beh = behaviours(c, c.pick(60, 600))
    c.cov["spec_generated_call_sequences"] = len(beh)
    sc = []
    fixed = [[[1, 2, 3]], [[1, 2]], [[1], [2], [3]], [[1, 2], [2, 3], [1, 3], [1, 2, 3]], [[2, 3]] * 3, [[1, 2, 3]] * 5]
    for k in range(c.pick(180, 2500)):
        np_ = rng.choice([2, 3, 4, 4, 5, 6])
        ranks = list(range(1, np_))
        pat = fixed[k] if k < len(fixed) else c01.rand_pattern(rng, ranks, rng.randint(1, 8))
        if k < len(fixed):
            np_ = 4
        maps = rng.choice([["basic", "chunked"], ["chunked", "chunked"], ["chunked", "basic"], ["basic", "basic"]])
        s = {"np": np_, "pat": pat, "bs": rng.choice([1, 1, 2, 3]), "maps": maps, "chunk": rng.choice([1, 2, 3, 100]), "vseed": k, "ops": beh[k % len(beh)]}
        if rng.random() < 0.5:
            s["delay"], s["dseed"] = 1500, k
        s["key"] = "dcc"
        sc.append(s)
    return sc


def to_trace(s, rs):
    np_, bs = s["np"], s["bs"]
    nm = len(s["maps"])
    ev = [{"op": "maps"}]
    for i, o in enumerate(s["ops"]):
        e = {"op": o["op"], "m": o["m"], "v": o["v"], "ranks": [{"val": r["ev"][i]["val"], "st": r["ev"][i]["st"]} for r in rs]}
        if o["op"] == "poke":
            e["add"] = [r["ev"][i]["add"] for r in rs]
        ev.append(e)
    ev.append({"op": "end", "ranks": [{k: r[k] for k in ("open", "stray", "active", "restarted")} for r in rs]})
    pat = [p for p in s["pat"] for _ in range(bs)]
    return {"id": s["sid"], "key": s["key"], "np": np_, "scen": s, "pat": pat, "own": [r["own"] for r in rs], "nodes": [r["nodes"] for r in rs], "nb": [r["nb"] for r in rs],
            "masters": [[r["masters"][m] for r in rs] for m in range(nm)], "mex": [[r["mex"][m] for r in rs] for m in range(nm)],
            "gex": [[r["gex"][m] for r in rs] for m in range(nm)], "events": ev}


def run(c):
    c.model("OwnershipModel", c.pick("OwnershipModel.cfg", "OwnershipModelBig.cfg"), deadlock=True)
    res = c.harness("ownership", scenarios(c))
    tr = [to_trace(s, rs) for s, rs in res]
    c.validate("OwnershipTrace", tr, "owner exchange")
    nops = {}
    for t in tr:
        for e in t["events"]:
            nops[e["op"]] = nops.get(e["op"], 0) + 1
    c.cov["operations"] = nops
    c.samples = [{"pattern": t["pat"], "ops": [(e["op"], e.get("m"), e.get("v")) for e in t["events"]][:8]} for t in tr[::max(1, len(tr) // 4)]]
    c.assumptions = ["calls follow the contract OwnershipGen: one exchange per object at a time, a vector is in at most one exchange",
                     "rank 0 holds nothing (NGS_COMPATIBILITY build)"]
    c.finish()
