"""C02: collective exchange of data on shared classes."""
import random
import c01

OPS = ["reduce_concat", "reduce_empty", "reduce_rows", "scatter_table", "scatter_eqc_array", "scatter_eqc_data", "gather", "gather2",
       "exchange0", "exchange1", "exchange2"]


def scenarios(c):
    rng = random.Random(c.seed * 1000 + 2)
    sc = []

    def ops(np_, via, n):
        out = []
        for _ in range(n):
            op = rng.choice(OPS + (["allreduce_dofs", "allreduce_dofs_order"] * 2 if via == "pds" else []) + (["send_table", "bcast_table"] if np_ > 1 else []))
            o = {"op": op, "seed": rng.randint(1, 10**6), "maxlen": rng.choice([0, 1, 1, 2, 3])}
            if op.startswith("exchange"):
                o["maxlen"] = rng.choice([1, 2, 3])
            if op in ("send_table", "bcast_table"):
                o["from"] = rng.randrange(np_)
                o["to"] = (o["from"] + rng.randint(1, np_ - 1)) % np_
                o["rows"] = rng.choice([0, 1, 3, 5])
            out.append(o)
        return out

    for p in c01.patterns_from_spec(c, "ClassPatterns")[::c.pick(2, 1)]:
        sc.append({"np": 4, "pat": p, "via": "pds", "cutunion": rng.randint(0, 1), "ops": ops(4, "pds", 8)})
    for k in range(c.pick(160, 2500)):
        np_ = rng.choice([1, 2, 3, 4, 5, 6])
        via = rng.choice(["pds", "table"])
        ranks = list(range(np_)) if via == "table" or np_ == 1 else list(range(1, np_))
        s = {"np": np_, "pat": c01.rand_pattern(rng, ranks, rng.randint(1, 9)), "via": via, "cutunion": rng.randint(0, 1), "ops": ops(np_, via, 10)}
        if rng.random() < 0.5:
            s["delay"], s["dseed"] = 1500, k
        sc.append(s)
    for s in sc:
        s["key"] = "exchange"
    return sc


def run(c):
    c.model("ReduceProtocol", c.pick("ReduceProtocol.cfg", "ReduceProtocolBig.cfg"), deadlock=True)
    res = c.harness("exchange", scenarios(c))
    tr = []
    nops = {}
    for s, rs in res:
        ev = []
        for i, o in enumerate(s["ops"]):
            nops[o["op"]] = nops.get(o["op"], 0) + 1
            ev.append({"op": o["op"], "from": o.get("from", 0), "to": o.get("to", 0), "ranks": [r["ev"][i] for r in rs]})
        ev.append({"op": "end", "ranks": [{"open": r["open"], "stray": r["stray"], "active": r["active"]} for r in rs]})
        tr.append({"id": s["sid"], "key": s["key"], "scen": s, "np": s["np"], "pat": s["pat"], "dps": [r["dps"] for r in rs], "own": [r["own"] for r in rs], "events": ev})
    c.validate("ExchangeTrace", tr, "collective exchange")
    c.cov["operations"] = nops
    c.samples = [{"pattern": t["pat"], "ops": [e["op"] for e in t["events"]]} for t in tr[::max(1, len(tr) // 4)]]
    c.assumptions = ["all members pass data for the same rows (collective call); reductions used: concatenation and a data-dependent selection"]
    c.finish()
