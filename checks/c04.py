"""C04: the hybrid splitting of a distributed matrix."""
import random
import c01


def scenarios(c):
    rng = random.Random(c.seed * 1000 + 4)
    sc = []
    for k in range(c.pick(150, 2200)):
        np_ = rng.choice([2, 3, 4, 4, 5, 6])
        ranks = list(range(1, np_))
        bs = rng.choice([1, 1, 1, 2, 3])
        dyn = bs == 1 and rng.random() < 0.35
        pat = c01.rand_pattern(rng, ranks, rng.randint(1, [8, 5, 4][bs - 1]))
        if rng.random() < 0.4:       # nodes come in groups with the same holders
            pat = [p for p in pat[:4] for _ in range(rng.choice([1, 2, 3]))]
            pat = pat[:[9, 6, 4][bs - 1]]
        ops = [{"v": rng.choice([0, 0, 1, 2, 3] if not dyn else [0, 1]), "s": rng.choice([1, -1, 2, -3]), "xst": rng.randint(0, 1), "yst": rng.randint(0, 1)} for _ in range(4)]
        s = {"np": np_, "pat": pat, "bs": bs, "dyn": dyn, "mseed": k + 1000 * c.seed, "dens": rng.choice([30, 60, 100, 100]),
             "map": rng.choice(["auto", "basic", "chunked"]), "chunk": rng.choice([1, 2, 100]), "ops": ops}
        if rng.random() < 0.4:
            s["delay"], s["dseed"] = 1500, k
        s["key"] = "hybrid"
        sc.append(s)
    return sc


def to_trace(s, rs):
    ev = [{"op": "split"}]
    for i, o in enumerate(s["ops"]):
        e = {"op": "product", "v": o["v"], "s": o["s"], "x0st": o["xst"], "y0st": o["yst"]}
        for f in ("x0", "y0", "x", "y", "xst", "yst"):
            e[f] = [r["ev"][i][f] for r in rs]
        ev.append(e)
    ev.append({"op": "end", "ranks": [{k: r[k] for k in ("open", "stray")} for r in rs]})
    t = {"id": s["sid"], "key": s["key"], "np": s["np"], "scen": s, "pat": [p for p in s["pat"] for _ in range(s["bs"])], "events": ev}
    for f in ("own", "master", "A", "M", "G", "gglob"):
        t[f] = [r[f] for r in rs]
    return t


def run(c):
    c.model("SplitModel", c.pick("SplitModel.cfg", "SplitModelBig.cfg"))
    res = c.harness("hybrid", scenarios(c), tasks=True)
    tr = [to_trace(s, rs) for s, rs in res]
    c.validate("HybridTrace", tr, "hybrid splitting")
    c.cov["kinds"] = {k: sum(1 for t in tr if (t["scen"]["bs"], t["scen"]["dyn"], t["scen"]["map"]) == k) for k in {(t["scen"]["bs"], t["scen"]["dyn"], t["scen"]["map"]) for t in tr}}
    c.cov["kinds"] = {str(k): v for k, v in c.cov["kinds"].items()}
    c.samples = [{"pattern": t["pat"], "bs": t["scen"]["bs"], "dyn": t["scen"]["dyn"]} for t in tr[::max(1, len(tr) // 4)]]
    c.assumptions = ["symmetric local matrices (the splitting is specified for symmetric matrices only)", "integer entries: double precision arithmetic is exact",
                     "rank 0 holds nothing (NGS_COMPATIBILITY build)", "transposed products of the block-compressed variant are refused by the code"]
    c.finish()
