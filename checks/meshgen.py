"""Random meshes of vertices and edges on several ranks, and chains of steps on them."""
from c01 import rand_pattern


def by_elements(rng, ranks, nx, ny):
    """triangles of a structured mesh, dealt to ranks; vertices renumbered at random"""
    nv = nx * ny
    perm = list(range(nv))
    rng.shuffle(perm)
    els = []
    for i in range(nx - 1):
        for j in range(ny - 1):
            a, b, c, d = i * ny + j, i * ny + j + 1, (i + 1) * ny + j, (i + 1) * ny + j + 1
            els += [(a, b, d), (a, c, d)] if rng.random() < 0.7 else [(a, b, c), (b, c, d)]
    kind = rng.random()
    ctr = [(rng.random() * (nx - 1), rng.random() * (ny - 1)) for _ in ranks]
    hold = [set() for _ in range(nv)]
    ed = {}
    for k, e in enumerate(els):
        if kind < 0.6:
            x, y = sum(v // ny for v in e) / 3, sum(v % ny for v in e) / 3
            r = min(range(len(ranks)), key=lambda q: (ctr[q][0] - x) ** 2 + (ctr[q][1] - y) ** 2)
        elif kind < 0.8:
            r = k * len(ranks) // len(els)
        else:
            r = rng.randrange(len(ranks))
        r = ranks[r]
        for v in e:
            hold[perm[v]].add(r)
        for a, b in ((0, 1), (0, 2), (1, 2)):
            ed.setdefault(tuple(sorted((perm[e[a]], perm[e[b]]))), set()).add(r)
    return [sorted(x) or [ranks[0]] for x in hold], [[a, b, sorted(x)] for (a, b), x in ed.items()]


def by_pattern(rng, ranks, nv):
    pat = rand_pattern(rng, ranks, nv)
    ed = []
    dens = rng.choice([0.15, 0.3, 0.6])
    for a in range(nv):
        for b in range(a):
            com = [q for q in pat[a] if q in pat[b]]
            if com and rng.random() < dens:
                lst = sorted(rng.sample(com, rng.randint(1, len(com))))
                ed.append([a, b, lst] if rng.random() < 0.5 else [b, a, lst])
    rng.shuffle(ed)
    return pat, ed


def by_core(rng, ranks, nv):
    """most vertices on nested sets of several ranks, each with a few neighbours"""
    full = sorted(rng.sample(ranks, rng.randint(min(3, len(ranks)), len(ranks))))
    sets = [full, full, sorted(rng.sample(full, max(1, len(full) - 1))), sorted(rng.sample(full, max(1, len(full) - 1)))]
    if len(full) > 2:
        sets.append(sorted(rng.sample(full, len(full) - 2)))
    pat = [list(rng.choice(sets)) if rng.random() < 0.85 else [rng.choice(ranks)] for _ in range(nv)]
    ed = {}
    for a in range(nv):
        for _ in range(rng.randint(1, 3)):
            b = rng.randrange(nv)
            com = [q for q in pat[a] if q in pat[b]]
            if a != b and com:
                ed[min(a, b), max(a, b)] = sorted(rng.sample(com, rng.randint(1, len(com))))
    ed = [[a, b, x] for (a, b), x in ed.items()]
    rng.shuffle(ed)
    return pat, ed


SPW = [("spw_rounds", "num", ["1", "2", "3", "4"]), ("spw_pick_robust", "def", ["0", "1"]), ("spw_neib_boost", "def", ["0", "1"]), ("spw_cbs", "def", ["0", "1"]),
       ("spw_orphan_treatment", "def", ["0", "1"]), ("spw_pick_avg", "str", ["min", "geom", "harm", "alg", "max"]), ("spw_big_soc_robust", "def", ["0", "1"]), ("spw_diag_stab_boost", "num", ["0", "1"]),
       ("spw_big_soc_bdiag", "def", ["0", "1"])]
MIS = [("mis_neib_boost", "def", ["0", "1"]), ("mis_lazy_neib_boost", "def", ["0", "1"]), ("mis_dist2", "def", ["0", "1"]), ("mis_ecw_geom", "def", ["0", "1"]), ("mis_ecw_minmax", "def", ["0", "1"]),
       ("mis_minmax_avg", "str", ["min", "geom", "harm", "alg", "max"])]
ANY = [("edge_thresh", "num", ["0.01", "0.025", "0.2", "0.5"]), ("vert_thresh", "num", ["0", "0.3", "2"]), ("check_isolated_vertices", "def", ["0", "1"]), ("crs_robust", "def", ["0", "1"]), ("ecw_stab_hack", "def", ["0", "1"])]


def flags(rng, alg):
    out = []
    for k, t, vs in ANY + (SPW if alg == "spw" else MIS if alg == "mis" else []):
        if rng.random() < 0.3:
            out.append(["ngs_amg_" + k, t, rng.choice(vs)])
    return out


def crs(rng):
    alg = rng.choice(["spw", "spw", "spw", "mis", "mis"])
    return {"kind": "crs", "alg": alg, "level": rng.randint(0, 2), "flags": flags(rng, alg), "cum": int(rng.random() < 0.3), "distr": 0}


def groups(rng, n, idle):
    """n ranks into fewer groups; every group sorted, groups by their first rank"""
    rest = list(range(1, n)) if idle else list(range(n))
    low = 1 if idle else min(2, len(rest))       # at least two ranks stay in the communicator
    ng = rng.randint(low, max(low, len(rest) - 1)) if rng.random() < 0.9 else len(rest)
    lab = list(range(ng)) + [rng.randrange(ng) for _ in rest[ng:]]
    rng.shuffle(lab)
    g = {}
    for q, l in zip(rest, lab):
        g.setdefault(l, []).append(q)
    gs = sorted(g.values())
    return ([[0]] if idle else []) + gs


def chain(rng, np_, kinds, seed, idle=1, big=False):
    ranks = [0] if np_ == 1 else list(range(1, np_)) if idle else list(range(np_))
    x = rng.random()
    if not big and len(ranks) > 1 and x < 0.25:
        pat, edges = by_core(rng, ranks, rng.randint(8, 30))
    elif big or x < 0.7:
        pat, edges = by_elements(rng, ranks, rng.randint(5, 11) if big else rng.randint(3, 6), rng.randint(5, 9) if big else rng.randint(2, 4))
    else:
        pat, edges = by_pattern(rng, ranks, rng.randint(4, 16))
    nv = len(pat)
    dist = int(rng.random() < 0.5)
    light = rng.random() < 0.7
    s = {"np": np_, "idle": idle if np_ > 1 else 0, "pat": pat, "edges": edges, "seed": seed, "nodal": int(rng.random() < 0.4),
         "data": {"dist": dist, "v0": [0 if light and rng.random() < 0.8 else rng.randint(0, 30) for _ in range(nv)], "v1": [rng.randint(0, 5) for _ in range(nv)], "e": [rng.choice([1, 2, 3, 5, 9, 40, 200]) for _ in edges]}}
    if kinds and kinds[0] == "crs" and rng.random() < 0.7:
        s["free"] = [int(rng.random() < rng.choice([0.7, 0.95])) for _ in range(nv)]
    n, steps = np_, []
    for k in kinds:
        if k == "crs":
            steps.append(crs(rng))
        else:
            t = {"kind": "ctr", "oriented": rng.randint(0, 1), "cum": 0, "distr": 0}
            x = rng.random()
            if x < 0.3:
                t["cum"] = 1
            elif x < 0.4:
                t["cum"], t["distr"] = 1, 1
            t["groups"] = groups(rng, n, idle)
            if "ctr" not in kinds[len(steps) + 1:] and rng.random() < 0.3:
                t["metis"] = rng.randint(2, max(2, n - 1)) + (1 if idle and rng.random() < 0.5 else 0)
            n = len(t["groups"])
            steps.append(t)
    s["steps"] = steps
    s["key"] = ("-".join(kinds) or "build")
    if np_ > 2 and rng.random() < 0.3:
        s["send"] = rng.sample(ranks, 2)
    if np_ > 1 and rng.random() < 0.2:
        s["delay"], s["dseed"] = rng.choice([200, 1500]), seed
    return s


def generated(g, seed):
    """a mesh and a grouping written by MeshModel.tla"""
    pat, edges, gs = g
    rank = {e: [q for q in pat[e[0] - 1] if q in pat[e[1] - 1]] for e in map(tuple, edges)}
    ed = [[a - 1, b - 1, h[:1 + (seed + k) % len(h)]] for k, ((a, b), h) in enumerate(rank.items())]
    return {"np": 4, "idle": 1, "pat": pat, "edges": ed, "seed": seed, "nodal": int(seed % 3 == 0),
            "data": {"dist": seed % 2, "v0": [k for k in range(len(pat))], "v1": [2 * k for k in range(len(pat))], "e": [1 + 3 * k for k in range(len(ed))]},
            "steps": [{"kind": "ctr", "oriented": (seed // 2) % 2, "cum": int(seed % 5 == 0), "distr": 0, "groups": [[0]] + gs}], "key": "generated"}
