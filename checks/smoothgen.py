"""Scenarios with smoothers, shared by C05, C06 and C07."""
import c01


def free_bits(rng, n):
    k = rng.random()
    if k < 0.3:
        return None
    if k < 0.36:
        return [0] * n
    if k < 0.42:
        return [1] * n
    return [1 if rng.random() < 0.75 else 0 for _ in range(n)]


def rand_blocks(rng, nodes, overlap):
    nodes = list(nodes)
    rng.shuffle(nodes)
    bl = []
    while nodes:
        k = min(len(nodes), rng.choice([1, 1, 2, 3, 4]))
        bl.append(sorted(nodes[:k]))
        nodes = nodes[k:]
    if overlap and bl:
        for _ in range(rng.randint(1, 2)):
            a = rng.choice(bl)
            b = rng.choice(bl)
            new = sorted(set(a) | set(b))[:4]
            bl.insert(rng.randint(0, len(bl)), new)
    return bl


def pattern(rng, ranks, n, grp):
    p = c01.rand_pattern(rng, ranks, (n + grp - 1) // grp)
    return [p[i // grp] for i in range(n)]


def gen_ops(rng, nprox, n, par, first=None):
    ops = []
    for k in range(n):
        o = {"tgt": rng.choice([-1, -1, -1] + list(range(nprox))), "op": rng.choice([0, 0, 1, 1, 2, 3, 4, 5]), "k": rng.choice([1, 2, 3]),
             "ru": rng.randint(0, 1), "ur": rng.randint(0, 1), "xz": 1 if rng.random() < 0.35 else 0,
             "xst": 1, "bst": rng.randint(0, 1) if par else 1, "rst": 1 if rng.random() < 0.15 else 0}
        if par and rng.random() < 0.2 and not o["xz"]:
            o["xst"] = 0
        if k > 0 and not o["xz"] and rng.random() < 0.3:
            o["chain"] = 1
        ops.append(o)
    return ops


KINDS = ["gs", "gs", "gs", "bs", "bs", "bs", "dyn", "dyn", "di", "jac", "gss4", "hpt", "hpt"]


def one(rng, k, seed, par, kind=None, nops=6):
    kind = kind or rng.choice([x for x in KINDS if not (par and x in ("jac", "gss4"))])
    s = {"kind": kind, "mseed": k + 1000 * seed, "key": kind + ("-par" if par else ""), "np": 1}
    bs = 1 if kind in ("dyn", "hpt") else rng.choice([1, 1, 2, 3])
    n = rng.randint(1, [12, 7, 5][bs - 1])
    grp = 1
    if kind == "dyn":
        grp = rng.choice([1, 2, 2, 3])
    if par:
        s["np"] = rng.choice([2, 3, 3, 4, 4, 5])
        s["pat"] = pattern(rng, list(range(1, s["np"])), n, grp)
        for f in ("thread", "overlap"):
            s[f] = rng.randint(0, 1)
    else:
        s["pat"] = [[0]] * n
    s["bs"], s["grp"] = bs, grp
    s["free"] = free_bits(rng, n)
    s["omega"] = 1.0
    if kind == "gs":
        s["pinv"] = rng.randint(0, 1) if bs > 1 else 0
        s["symm_loc"] = 1 if par and rng.random() < 0.3 else 0
        if par and rng.random() < 0.3:
            s["nloc"] = rng.choice([2, 3])
        if s["pinv"] and not par and rng.random() < 0.5:
            s["deg"] = [u for u in range(n) if rng.random() < 0.4]
    elif kind == "gss4":
        s["pinv"] = rng.randint(0, 1) if bs > 1 else 0
    elif kind == "bs":
        s["no"], s["bs2"], s["sl2"], s["pinv"] = rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 1), rng.randint(0, 1)
        s["shm"] = rng.randint(0, 1)
        if not s["bs2"] or s["np"] > 2:      # refused by the code
            s["no"] = 0
        ov = not s["no"] and not par and rng.random() < 0.25
        cover = [u for u in range(n) if s["free"] is None or s["free"][u]]
        s["overlapping"] = ov
        if par:      # blocks do not cross the borders of the parts: same holders
            s["blocks"] = []
            for q in {tuple(s["pat"][u]) for u in cover}:
                s["blocks"] += rand_blocks(rng, [u for u in cover if tuple(s["pat"][u]) == q], False)
            rng.shuffle(s["blocks"])
        else:
            s["blocks"] = rand_blocks(rng, cover, ov)
        s["free"] = [1 if u in cover else 0 for u in range(n)]
        s["symm_loc"] = 1 if par and rng.random() < 0.3 else 0
        if par and rng.random() < 0.25:
            s["nloc"] = rng.choice([2, 3])
        if s["shm"] and s["sl2"] and not s["bs2"]:
            s["tm"] = 4
    elif kind == "dyn":
        s["omega"] = rng.choice([1.0, 1.0, 0.75])
        if par and rng.random() < 0.3:
            s["nloc"] = rng.choice([2, 3])
    elif kind == "jac":
        s["omega"] = 0.9
    elif kind == "hpt":
        npot = rng.randint(1, 6)
        s["pat2"] = c01.rand_pattern(rng, list(range(1, s["np"])), npot) if par else [[0]] * npot
        s["D"], s["pat"] = [], []
        pf = free_bits(rng, npot)
        f = []
        for _ in range(n):
            ends = sorted(rng.sample(range(npot), min(npot, rng.choice([1, 2, 2, 3]))))
            if par:
                common = set(s["pat2"][ends[0]])
                for q in ends[1:]:
                    common &= set(s["pat2"][q])
                if not common:
                    ends = ends[:1]
                    common = set(s["pat2"][ends[0]])
                hold = sorted(rng.sample(sorted(common), rng.randint(1, len(common))))
                s["pat"].append(hold)
            else:
                s["pat"].append([0])
            s["D"].append([[q, rng.choice([1, -1, 2])] for q in ends])
            f.append(1 if pf is None or any(pf[q] for q in ends) else rng.randint(0, 1))
        s["free"] = None if all(f) else f
        def sub(fr, m):
            kk = rng.choice(["gs", "gs", "dyn", "di"]) if m else "gs"
            if not m and not par and rng.random() < 0.3:
                kk = "jac"
            c = {"kind": kk, "free": fr, "omega": 1.0, "thread": s.get("thread", 0), "overlap": s.get("overlap", 0)}
            return c
        s["rsm"], s["psm"] = sub(s["free"], False), sub(pf, False)
        for c in (s["rsm"], s["psm"]):
            if c["kind"] == "jac":
                c["omega"] = 0.9
        s["adopt"], s["potfirst"] = rng.randint(0, 1), rng.randint(0, 1)
    # the sparse Cholesky inverse of NGSolve leaves its result unwritten when nothing is free
    for c in [s] + ([s["psm"]] if kind == "hpt" else []):
        if c["kind"] == "di" and not par and c["free"] is not None and not any(c["free"]):
            c["free"][0] = 1
    s["proxies"] = [{"n": rng.choice([1, 2, 3]), "symm": rng.randint(0, 1)} for _ in range(rng.randint(1, 2))]
    if par and rng.random() < 0.4:
        s["delay"], s["dseed"] = 800, k
    s["ops"] = gen_ops(rng, len(s["proxies"]), nops, par)
    return s


def groups_of(s, rec):
    """the groups of nodes that are relaxed together, in the order of the sweep (one process)"""
    n = len(s["pat"])
    free = [1] * n if s.get("free") is None else s["free"]
    fr = [u for u in range(n) if free[u]]
    k = s["kind"]
    if k in ("gs", "gss4", "jac"):
        return [[u] for u in fr]
    if k == "di":
        return [fr] if fr else []
    if k == "bs":
        return [b for b in s["blocks"]]
    if k == "dyn":
        b = rec[0].get("dynblocks", []) if s["np"] == 1 else []
        return [x for x in ([u for u in bl if free[u]] for bl in b) if x]
    return []


def to_trace(s, rs):
    par = s["np"] > 1
    n = len(s["pat"])
    k = s["kind"]
    t = {"id": s["sid"], "key": s["key"], "kind": k, "np": s["np"], "n": n, "bs": s["bs"], "scen": s}
    t["own"] = [r["own"] for r in rs]
    t["A"] = [r["A"] for r in rs]
    t["Sf"], t["Sb"] = [r["Sf"] for r in rs], [r["Sb"] for r in rs]
    t["free"] = [1] * n if s.get("free") is None else s["free"]
    t["master"] = [r["master"] for r in rs] if par and k != "hpt" else []
    t["pinv"] = 1 if s.get("deg") else 0
    t["omega"] = repr(s["omega"])
    # BSmoother2 only has the rows of its blocks
    t["resfree"] = 1 if k == "bs" and s["bs2"] and (not par or s["no"]) else 0
    t["nloc"] = s.get("nloc", 1)
    if t["nloc"] > 1:
        t["Sf1"], t["Sb1"] = [r["Sf1"] for r in rs], [r["Sb1"] for r in rs]
    t["order"] = groups_of(s, rs)
    t["sweep"] = "none"
    if not par and k != "hpt":
        t["sweep"] = "jac" if k == "jac" else "order"
        if k == "bs" and s["shm"] and not s["bs2"]:
            t["sweep"] = "perm" if len(t["order"]) <= 5 else "none"
    t["single"] = 1 if s["np"] == 2 else 0
    t["local"] = 1 if par and k in ("gs", "bs", "di") and not s.get("symm_loc") and t["nloc"] == 1 else 0
    if par and k == "dyn":
        t["local"] = 1 if s["omega"] == 1 and t["nloc"] == 1 else 0
    t["group"] = [b for r in rs for b in r.get("dynblocks", [])] if par and k == "dyn" else s["blocks"] if k == "bs" else [[u for u in range(n)]] if k == "di" else []
    t["energy"] = 1 if (k in ("gs", "gss4", "bs", "di", "dyn") and not par) or (k == "gs" and s["bs"] == 1) else 0
    if k == "hpt":
        m = len(s["pat2"])
        d = [[0.0] * m for _ in range(n)]
        for u in range(n):
            for p, v in s["D"][u]:
                d[u][p] = float(v)
        t["D"] = " ".join(repr(v) for r in d for v in r)
        t["n2"], t["potfirst"] = m, s["potfirst"]
        for f in ("own2", "Pf", "Pb", "Rf", "Rb"):
            t[f] = [r[f] for r in rs]
    t["proxies"] = [{"n": 0, "symm": 0}] + s["proxies"]
    ev = [{"op": "operator"}]
    for i, o in enumerate(s["ops"]):
        e = {"op": "smooth", "tgt": o["tgt"], "sop": o["op"], "k": o["k"], "ru": o["ru"], "ur": o["ur"], "xz": o["xz"]}
        for f in ("x0", "b0", "r0", "x1", "b1", "r1"):
            e[f] = [r["ev"][i][f] for r in rs]
            e[f + "st"] = [r["ev"][i][f + "st"] for r in rs]
        ev.append(e)
    ev.append({"op": "end", "ranks": [{q: r[q] for q in ("open", "stray")} for r in rs]})
    t["events"] = ev
    return t
