"""C09: transfers between levels."""
import random
import mapgen

HOWS = ["dm", "dm", "atob", "atob", "conc", "concsym", "concstep", "multi", "sub"]


def one(rng, k, seed, par):
    np_ = rng.choice([2, 3, 4, 4, 5, 6]) if par else 1
    kinds = rng.choice([["prol"], ["prol", "prol"], ["prol", "prol", "prol"]]) if not par else \
        rng.choice([["prol"], ["ctr"], ["prol", "ctr"], ["ctr", "prol"], ["prol", "ctr", "prol"], ["ctr", "prol", "ctr"], ["prol", "prol", "ctr"], ["ctr", "ctr"], ["prol", "ctr", "prol", "ctr"]])
    npr = kinds.count("prol")
    b = rng.choice([1, 1, 2, 3])
    bss = [b] * (npr + 1)
    if npr and rng.random() < 0.35:
        i = rng.randint(1, npr)
        bss[i:] = [rng.choice([1, 2, 3])] * (npr + 1 - i)
    levels, steps = mapgen.chain(rng, np_, [14, 9, 6][max(bss) - 1], kinds, bss)
    for t in steps:
        if t["kind"] == "prol":
            t["pt"] = rng.randint(0, 1)
    s = {"np": np_, "levels": levels, "steps": steps, "mseed": k + 1000 * seed, "key": "-".join(kinds), "prepend": rng.randint(0, 1), "lazy": rng.randint(0, 1),
         "asmfirst": 1 if rng.random() < 0.8 else 0}
    if par and not s["asmfirst"]:
        s["lazy"] = 0         # the first use of a map finalizes it, and that is collective
    dyn = not par and max(bss) == 1 and rng.random() < 0.4
    if dyn:       # block-compressed prolongations transfer vectors only
        s["asmfirst"] = 0
        for t in steps:
            if rng.random() < 0.7:
                t["dyn"], t["pt"] = 1, 0
    nl = len(levels)
    s["asm"] = [{"a": 0, "b": b_, "how": rng.choice(["conc", "multi", "concsym"])} for b_ in range(2, nl)] if s["asmfirst"] else []
    ops = []
    for _ in range(8):
        a = rng.randint(0, nl - 2)
        b_ = rng.randint(a + 1, nl - 1) if rng.random() < 0.6 else a + 1
        how = rng.choice(HOWS)
        if how == "dm":
            b_ = a + 1
        if how in ("multi", "conc", "concstep") and dyn:
            how = "atob"
        op = rng.randint(0, 3)
        if how == "atob":
            op = rng.choice([0, 2])
        if how == "sub" and b_ > a + 1:
            b_ = a + 1
        ops.append({"a": a, "b": b_, "how": how, "op": op, "fac": rng.choice([1, -1, 0.5, 2, 0]), "fst": rng.randint(0, 1) if par else 1, "cst": rng.randint(0, 1) if par else 1})
    # exchange a redistribution and a prolongation
    sw = [a for a in range(nl - 2) if kinds[a] == "ctr" and kinds[a + 1] == "prol" and levels[a]["bs"] == levels[a + 2]["bs"]]
    if sw:
        s["setupfirst"] = rng.randint(0, 1)
        for a in sw:
            for op in range(4):
                ops.insert(rng.randint(0, len(ops)), {"a": a, "b": a + 2, "how": "swap", "op": op, "fac": rng.choice([1, -1, 0.5]), "fst": rng.randint(0, 1), "cst": rng.randint(0, 1)})
            if s["asmfirst"] and a == 0:
                s["asm"].append({"a": 0, "b": 2, "how": "swap"})
    s["ops"] = ops
    if par and rng.random() < 0.3:
        s["delay"], s["dseed"] = rng.choice([200, 1500]), k
    return s


def trace(s, rs):
    nl = len(s["levels"])
    t = {"id": s["sid"], "key": s["key"], "scen": s,
         "levels": [{"n": L["n"], "bs": L["bs"], "own": [r["own"][l] for r in rs], "act": [r["act"][l] for r in rs]} for l, L in enumerate(s["levels"])],
         "P": [mapgen.dense(s["levels"], k, st) for k, st in enumerate(s["steps"])]}
    ev = [{"op": "shape", "nlev": [r["nlev"] for r in rs], "mapped": [r["mapped"] for r in rs], "dims": [r["dims"] for r in rs]}]
    if s["asmfirst"]:
        ev.append({"op": "assemble", "A": [r["A"] for r in rs], "asm": [[r["asm"][l] for r in rs] for l in range(nl)],
                   "extra": [{"b": q["b"], "m": [r["extra"][k] for r in rs]} for k, q in enumerate(s["asm"])]})
    for k, o in enumerate(s["ops"]):
        e = {"op": "transfer", "sop": o["op"], "a": o["a"], "b": o["b"], "fac": str(o["fac"]), "how": o["how"]}
        for f in ("f0", "c0", "f1", "c1", "f0st", "c0st", "f1st", "c1st"):
            e[f] = [r["ev"][k][f] for r in rs]
        ev.append(e)
    ev.append({"op": "end", "ranks": [{q: r[q] for q in ("open", "stray")} for r in rs]})
    t["events"] = ev
    return t


def run(c):
    rng = random.Random(c.seed * 1000 + 9)
    sc = [one(rng, k, c.seed, False) for k in range(c.pick(400, 4000))] + [one(rng, k + 500000, c.seed, True) for k in range(c.pick(900, 9000))]
    res = c.harness("maps", sc, stall=150, tasks=True)
    tr = [trace(s, rs) for s, rs in res]
    c.validate("MapTrace", tr, "transfer")
    c.cov["chains"] = {k: sum(1 for t in tr if t["key"] == k) for k in sorted({t["key"] for t in tr})}
    c.samples = [{"chain": t["key"], "levels": [(L["n"], L["bs"], sum(L["act"])) for L in t["levels"]]} for t in tr[::max(1, len(tr) // 4)]]
    c.assumptions = ["an unknown of the coarse level is held by every rank that holds an unknown it is coupled to (hierarchic prolongations)",
                     "rank 0 holds no unknowns in parallel runs and is never merged (build with NGS_COMPATIBILITY)"]
    c.finish()
