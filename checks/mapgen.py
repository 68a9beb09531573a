"""Chains of levels: prolongations and redistributions of unknowns, shared by C08 and C09.

levels: [{n, bs, act: world ranks that have the level (ascending), pat: world ranks that hold unknown u, key: order of unknowns}]
steps:  [{kind: "prol", P: {fine: [[coarse, [entries]]]}} or {kind: "ctr", groups: [[master, members...]]}]"""
import c01


def level(rng, n, bs, act, pat):
    k = list(range(n))
    if rng.random() < 0.6:
        rng.shuffle(k)
    return {"n": n, "bs": bs, "act": act, "pat": pat, "key": k}


def own(L, r):
    return sorted((u for u in range(L["n"]) if r in L["pat"][u]), key=lambda u: L["key"][u])


def prol(rng, L, bsc, full=False):
    """full: the columns are linearly independent"""
    n = L["n"]
    nc = rng.randint(1, max(1, n if rng.random() < 0.15 else (n + 1) // 2))
    P, pat = [], [set() for _ in range(nc)]
    direct = dict(zip(rng.sample(range(n), nc), range(nc))) if full else {}
    for u in range(n):
        k = rng.choice([0, 1, 1, 1, 2, 3])
        cs = sorted(rng.sample(range(nc), min(nc, k)))
        P.append([[c, [rng.choice([0.5, 1, 1, -0.25, 0.75, 2, 0]) for a in range(L["bs"]) for b in range(bsc)]] for c in cs])
        if u in direct:
            cs = [direct[u]]
            P[-1] = [[cs[0], [float((1 + u % 2) * (a == b)) for a in range(L["bs"]) for b in range(bsc)]]]
        for c in cs:
            pat[c] |= set(L["pat"][u])
    ranks = [r for r in L["act"] if r > 0] or [0]
    for c in range(nc):
        if not pat[c]:
            pat[c] = set(rng.sample(ranks, rng.randint(1, min(2, len(ranks)))))
    return {"kind": "prol", "P": P}, level(rng, nc, bsc, L["act"], [sorted(p) for p in pat])


def ctr(rng, L):
    others = [r for r in L["act"] if r > 0]
    rng.shuffle(others)
    ng = rng.randint(1, max(1, len(others) - 1)) if rng.random() < 0.85 else max(1, len(others))
    groups = [[] for _ in range(ng)]
    for i, r in enumerate(others):
        groups[i if i < ng else rng.randrange(ng)].append(r)
    if rng.random() < 0.5:
        groups = [sorted(g) for g in groups]
    groups.append([0])
    to = {r: g[0] for g in groups for r in g}
    act = sorted(g[0] for g in groups)
    pat = [sorted({to[r] for r in p}) for p in L["pat"]]
    return {"kind": "ctr", "groups": groups}, level(rng, L["n"], L["bs"], act, pat)


def chain(rng, np_, nmax, kinds, bss, full=False):
    n = rng.randint(1, nmax)
    act = list(range(np_))
    pat = c01.rand_pattern(rng, list(range(1, np_)), n) if np_ > 1 else [[0]] * n
    L = level(rng, n, bss[0], act, pat)
    levels, steps, i = [L], [], 1
    for k in kinds:
        if k == "prol":
            s, L = prol(rng, L, bss[i], full)
            i += 1
        else:
            s, L = ctr(rng, L)
        steps.append(s)
        levels.append(L)
    return levels, steps


def dense(levels, k, s):
    """the global matrix of step k, or None for a redistribution"""
    f, c = levels[k], levels[k + 1]
    m = [[0.0] * (c["n"] * c["bs"]) for _ in range(f["n"] * f["bs"])]
    if s["kind"] == "ctr":
        for i in range(f["n"] * f["bs"]):
            m[i][i] = 1.0
    else:
        for u, row in enumerate(s["P"]):
            for cc, v in row:
                for a in range(f["bs"]):
                    for b in range(c["bs"]):
                        m[u * f["bs"] + a][cc * c["bs"] + b] = v[a * c["bs"] + b]
    return " ".join(repr(x) for r in m for x in r)
