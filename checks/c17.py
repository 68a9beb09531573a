"""C17: block-compressed matrices."""
import itertools, random
import smoothgen


def expand(rng, rg, cg, pat):
    """scalar matrix from group sizes rg, cg and the pattern of the groups"""
    co = [0]
    for g in cg:
        co.append(co[-1] + g)
    cols = []
    for k, g in enumerate(rg):
        row = [j for q in sorted(pat[k]) for j in range(co[q], co[q + 1])]
        cols += [list(row) for _ in range(g)]
    return {"h": sum(rg), "w": sum(cg), "bh": 1, "bw": 1, "cols": cols, "vals": [[[rng.choice([0, 1, -1, 2, -3, 5, -7])] for _ in r] for r in cols]}


def offs(g, rng, split):
    o = [0]
    for x in g:
        b = o[-1]
        for j in range(1, x):
            if rng.random() < split:
                o.append(b + j)
        o.append(b + x)
    return o


def make(rng, rg, cg, pat, how):
    A = expand(rng, rg, cg, pat)
    s = {"np": 1, "A": A, "how": how, "key": how, "rowoff": offs(rg, rng, rng.choice([0, 0, 0.4, 1])), "coloff": offs(cg, rng, rng.choice([0, 0, 0.4, 1]))}
    if how == "symm":
        s["coloff"] = s["rowoff"]
    s["ops"] = [{"v": rng.randint(0, 1), "s": rng.choice([1, -1, 2, -3]), "x": [rng.randint(-5, 5) for _ in range(A["w"])], "y0": [rng.randint(-5, 5) for _ in range(A["h"])]} for _ in range(3)]
    return s


def scenarios(c):
    rng = random.Random(c.seed * 1000 + 17)
    sc = []
    # all symmetric patterns of three groups
    for bits in range(64):
        e = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)]
        pat = [set() for _ in range(3)]
        for k, (i, j) in enumerate(e):
            if bits >> k & 1:
                pat[i].add(j)
                pat[j].add(i)
        g = [rng.choice([1, 2, 3]) for _ in range(3)]
        sc.append(make(rng, g, g, pat, rng.choice(["auto", "symm"])))
    for k in range(c.pick(250, 4000)):
        nr = rng.randint(0 if rng.random() < 0.1 else 1, 6)
        dens = rng.choice([0.2, 0.4, 0.7, 1])
        if rng.random() < 0.5:     # symmetric
            g = [rng.choice([1, 1, 2, 3, 5]) for _ in range(nr)]
            pat = [set() for _ in range(nr)]
            for i in range(nr):
                for j in range(i + 1):
                    if rng.random() < dens:
                        pat[i].add(j)
                        pat[j].add(i)
            if nr > 2 and rng.random() < 0.5:      # same pattern in groups that are not next to each other
                pass
            sc.append(make(rng, g, g, pat, rng.choice(["auto", "auto", "symm"])))
        else:
            nc = rng.randint(1, 5)
            base = [{j for j in range(nc) if rng.random() < dens} for _ in range(rng.randint(1, 3))]
            pat = [set(rng.choice(base)) for _ in range(nr)]
            sc.append(make(rng, [rng.choice([1, 1, 2, 3, 5]) for _ in range(nr)], [rng.choice([1, 2, 3, 4]) for _ in range(nc)], pat, rng.choice(["cols", "both"])))
    return sc


def run(c):
    res = c.harness("dyn", scenarios(c), tasks=True)
    tr = []
    for s, (r,) in res:
        t = {"id": s["sid"], "key": s["key"], "A": s["A"], "events": [{"op": "build"}] + [dict(o, op="product", **e) for o, e in zip(s["ops"], r["ev"])]}
        for f in ("blocks", "rowoff", "coloff", "nze", "height", "width"):
            t[f] = r[f]
        tr.append(t)
    c.validate("DynTrace", tr, "block-compressed matrix")
    # a smoothing step on the groups is block Gauss-Seidel over them
    rng = random.Random(c.seed * 1000 + 17)
    sm = [smoothgen.one(rng, k, c.seed, k % 3 == 2, kind="dyn", nops=4) for k in range(c.pick(300, 4000))]
    st = [smoothgen.to_trace(s, rs) for s, rs in c.harness("smooth", sm, tasks=True)]
    for k in range(0, len(st), 1500):
        c.validate("SmoothTrace", st[k:k + 1500], "smoother on groups", env={"PROPERTY": "C17"}, heap="8g")
    c.cov["smoothers"] = {"one process": sum(1 for t in st if t["np"] == 1), "distributed": sum(1 for t in st if t["np"] > 1), "distributed, sweep determined": sum(t["local"] for t in st if t["np"] > 1)}
    c.samples = [{"A": t["A"]["cols"], "how": t["key"]} for t in tr[::max(1, len(tr) // 4)]]
    c.assumptions = ["the pattern is symmetric where the row groups are used for the columns too, and given groups fit the pattern (preconditions of the constructors)",
                     "integer entries: double precision arithmetic is exact"]
    c.finish()
