"""C08: multigrid cycles."""
import random
import mapgen


def smoother(rng, L, par, free):
    bs = L["bs"]
    kind = rng.choice(["gs", "gs", "bs", "di", "jac", "gss4", "dyn"] if not par else ["gs", "gs", "bs", "di", "dyn"])
    if kind == "dyn" and bs > 1:
        kind = "gs"
    c = {"kind": kind, "free": free, "omega": 0.6 if kind == "jac" else 1.0, "thread": rng.randint(0, 1) if par else 0, "overlap": rng.randint(0, 1) if par else 0}
    if kind == "gs" and rng.random() < 0.2:
        c["symm_loc"] = 1
    if kind in ("gs", "bs") and par and rng.random() < 0.2:
        c["nloc"] = 2
    if kind == "bs":
        import smoothgen
        cover = [u for u in range(L["n"]) if free is None or free[u]]
        c["blocks"] = []
        for q in sorted({tuple(L["pat"][u]) for u in cover}):
            c["blocks"] += smoothgen.rand_blocks(rng, [u for u in cover if tuple(L["pat"][u]) == q], False)
        c["free"] = [1 if u in cover else 0 for u in range(L["n"])]
    if kind == "di" and not par and free is not None and not any(free):
        c["kind"] = "gs"
    if rng.random() < 0.15:
        c["proxy"] = {"n": rng.choice([1, 2]), "symm": rng.randint(0, 1)}
    return c


def one(rng, k, seed, par):
    np_ = rng.choice([2, 3, 4, 4, 5, 6]) if par else 1
    kinds = rng.choice([["prol"], ["prol", "prol"], ["prol", "prol", "prol"], ["prol"] * 4]) if not par else \
        rng.choice([["prol"], ["ctr"], ["prol", "ctr"], ["ctr", "prol"], ["prol", "ctr", "prol"], ["ctr", "prol", "ctr"], ["prol", "prol", "ctr"], ["prol", "ctr", "ctr"], ["prol", "ctr", "prol", "ctr"]])
    npr = kinds.count("prol")
    b = rng.choice([1, 1, 2, 3])
    bss = [b] * (npr + 1)
    if npr and b > 1 and rng.random() < 0.3:
        i = rng.randint(1, npr)
        bss[i:] = [rng.randint(1, b)] * (npr + 1 - i)
    levels, steps = mapgen.chain(rng, np_, [12, 6, 4][max(bss) - 1], kinds, bss, full=True)
    for t in steps:
        if t["kind"] == "prol":
            t["pt"] = rng.randint(0, 1)
    nl = len(levels)
    s = {"np": np_, "levels": levels, "steps": steps, "mseed": k + 1000 * seed, "key": "-".join(kinds), "prepend": rng.randint(0, 1), "lazy": 0}
    free0 = None
    if rng.random() < 0.5:
        free0 = [1 if rng.random() < 0.8 else 0 for _ in range(levels[0]["n"])]
    s["sm"] = [smoother(rng, levels[l], par, free0 if l == 0 else None) for l in range(nl - 1)]
    s["vwb"] = rng.randint(0, 2)
    s["coarse"] = rng.choice(["none", "null", "op", "op", "op"] + (["inv"] if not par else []))
    s["emb"] = 1 if nl > 2 and kinds[0] == "prol" and rng.random() < 0.35 else 0
    s["fls"] = rng.randint(0, 1)
    ops = []
    for q in range(10):
        o = {"l": 0, "op": "mult", "how": rng.choice(["mult", "mult", "trans", "add", "transadd"]), "fac": rng.choice([1, -1, 0.5, 0, 2]),
             "bst": rng.randint(0, 1) if par else 1, "xst": rng.randint(0, 1) if par else 1, "ru": 0, "ur": 0, "xz": 0, "buf": rng.randint(0, 1)}
        z = rng.random()
        if z < 0.25:
            o.update(op="from", l=rng.randint(s["emb"], nl - 2))
        elif z < 0.5:
            o.update(op="asm", l=rng.randint(s["emb"], nl - 2), single=rng.randint(0, 1), back=rng.randint(0, 1))
        elif z < 0.56:
            o.update(op="sub", l=rng.randint(s["emb"], nl - 1))
        elif z < 0.62 and s["coarse"] in ("op", "inv"):
            o.update(op="cinv", l=rng.choice([0, s["emb"]]))
        elif z < 0.7:
            lev = rng.randint(s["emb"] + 0, nl - 1)
            L = levels[lev]
            r = rng.choice([q for q in L["act"] if q > 0]) if par and len(L["act"]) > 1 else 0
            mine = mapgen.own(L, r)
            if mine:
                u = rng.choice(mine)
                o.update(op="bf", l=rng.choice([0, s["emb"]]), lev=lev, rank=r, u=u, comp=rng.randrange(L["bs"]))
        elif z < 0.76 and s["emb"]:
            o["l"] = 1
        if o["op"] == "sub" and o["l"] == nl - 1 and s["coarse"] not in ("op", "inv"):
            o["op"], o["l"] = "mult", 0
        if o["op"] == "sub" and o["l"] > 0:
            o["bst"] = 0 if par else 1
        if o["op"] in ("from", "asm"):
            o["ru"], o["ur"], o["xz"] = rng.randint(0, 1), rng.randint(0, 1), 1 if rng.random() < 0.35 else 0
            o["xst"] = 1
        elif o["op"] == "mult" and o["how"] in ("mult", "trans") or o["op"] in ("cinv", "bf"):
            o["junk"] = 1 if rng.random() < 0.4 else 0
        ops.append(o)
    s["ops"] = ops
    if par and rng.random() < 0.3:
        s["delay"], s["dseed"] = rng.choice([200, 1000]), k
    return s


def trace(s, rs):
    nl = len(s["levels"])
    t = {"id": s["sid"], "key": s["key"], "scen": s, "vwb": s["vwb"], "emb": s["emb"], "fls": s["fls"], "hasC": int(s["coarse"] in ("op", "inv")),
         "levels": [{"n": L["n"], "bs": L["bs"], "own": [r["own"][l] for r in rs], "act": [r["act"][l] for r in rs]} for l, L in enumerate(s["levels"])],
         "A": [[r["A"][l] for r in rs] for l in range(nl)], "Sf": [[r["Sf"][l] for r in rs] for l in range(nl - 1)], "Sb": [[r["Sb"][l] for r in rs] for l in range(nl - 1)],
         "C": [r["C"] for r in rs], "P": [mapgen.dense(s["levels"], k, st) for k, st in enumerate(s["steps"])]}
    ev = [{"op": "setup"}]
    for k, o in enumerate(s["ops"]):
        e = {"op": "apply", "sop": o["op"], "lev": o["l"], "how": o["how"], "fac": str(o["fac"]), "single": o.get("single", 0), "back": o.get("back", 0),
             "ru": o["ru"], "ur": o.get("ur", 0), "xz": o["xz"], "blev": o.get("lev", 0), "u": o.get("u", 0), "comp": o.get("comp", 0)}
        for f in ("x0", "b0", "r0", "x1", "b1", "r1"):
            e[f] = [r["ev"][k][f] for r in rs]
            e[f + "st"] = [r["ev"][k][f + "st"] for r in rs]
        if o["op"] == "solve":
            none = {"conv": 0, "needed": 0, "errs": "", "xs": [], "rs": [], "xst": [], "rst": []}
            e.update(op="solve", max=o["max"], tol=repr(o["tol"]) if o["tol"] else "0", save=o["save"], init=o["init"], sv=[r["ev"][k].get("sv", none) for r in rs])
        ev.append(e)
    ev.append({"op": "end", "ranks": [{q: r[q] for q in ("open", "stray")} for r in rs]})
    t["events"] = ev
    return t


def run(c):
    rng = random.Random(c.seed * 1000 + 8)
    sc = [one(rng, k, c.seed, False) for k in range(c.pick(300, 3000))] + [one(rng, k + 500000, c.seed, True) for k in range(c.pick(600, 6000))]
    res = c.harness("cycle", sc, stall=150, tasks=True)
    tr = [trace(s, rs) for s, rs in res]
    for k in range(0, len(tr), 1500):
        c.validate("CycleTrace", tr[k:k + 1500], "multigrid", heap="8g")
    c.cov["chains"] = {k: sum(1 for t in tr if t["key"] == k) for k in sorted({t["key"] for t in tr})}
    c.samples = [{"chain": t["key"], "cycle": "VWB"[t["vwb"]], "levels": [(L["n"], L["bs"], sum(L["act"])) for L in t["levels"]]} for t in tr[::max(1, len(tr) // 4)]]
    c.assumptions = ["symmetric positive definite level matrices, coarse matrices P^T A P, at least two levels",
                     "an unknown of the coarse level is held by every rank that holds an unknown it is coupled to (hierarchic prolongations)"]
    c.finish()
