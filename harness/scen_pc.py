"""preconditioners of assembled problems on meshes of grid cells, applied again and again; levels of the hierarchy"""
import itertools
import random
import ngsolve, NgsAMG, ngsv
import netgen.meshing as nm
from mapchain import S


def grid(s):
    """netgen mesh of the cells of a grid; boundary facets are of kind 1 (Dirichlet) or 2"""
    d, size, cells = s["dim"], s["size"], [tuple(c) for c in s["cells"]]
    rng = random.Random(s["mseed"])
    m = nm.Mesh(dim=d)
    pid = {}
    strides = [1, size[0] + 1, (size[0] + 1) * (size[1] + 1)][:d]
    corners = [(0, 0), (1, 0), (1, 1), (0, 1)] if d == 2 else [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
    add = lambda c, o: tuple(a + b for a, b in zip(c, o))

    def point(v):
        if v not in pid:
            x = [c * a + 0.2 * (rng.random() - 0.5) * s["shake"] for c, a in zip(v, s["stretch"])] + [0.0] * (3 - d)
            pid[v] = m.Add(nm.MeshPoint(nm.Pnt(*x)))
        return pid[v]
    for k in (1, 2):
        m.Add(nm.FaceDescriptor(surfnr=k, domin=1, bc=k)) if d == 3 or k == 1 else None
    facets = {}
    for c in sorted(cells):
        for o in corners:
            point(add(c, o))
    for c in sorted(cells):
        v = [add(c, o) for o in corners]
        if d == 2:
            if s["trig"]:
                t = [[0, 1, 2], [0, 2, 3]] if rng.random() < 0.5 else [[0, 1, 3], [1, 2, 3]]
                els = [[v[i] for i in q] for q in t]
            else:
                els = [v]
            for e in els:
                m.Add(nm.Element2D(1, [pid[x] for x in e]))
            fs = [[v[0], v[1]], [v[1], v[2]], [v[2], v[3]], [v[3], v[0]]]
        else:
            if s["trig"] and s.get("tets"):
                fs = []
                for perm in itertools.permutations(range(3)):      # Kuhn's six tetrahedra; all cells alike, so facets fit
                    t = [(0, 0, 0)]
                    for j in perm:
                        t.append(t[-1][:j] + (1,) + t[-1][j + 1:])
                    w = [add(c, o) for o in t]
                    if (perm in ((0, 1, 2), (1, 2, 0), (2, 0, 1))):
                        w[2], w[3] = w[3], w[2]
                    m.Add(nm.Element3D(1, [pid[x] for x in w]))
                    fs += [[w[1], w[2], w[3]], [w[0], w[3], w[2]], [w[0], w[1], w[3]], [w[0], w[2], w[1]]]
            else:
                m.Add(nm.Element3D(1, [pid[x] for x in v]))
                fs = [[v[i] for i in q] for q in ([0, 3, 2, 1], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7])]
        for f in fs:
            facets.setdefault(frozenset(f), []).append(f)
    for f in sorted(facets, key=sorted):
        if len(facets[f]) == 1:
            q = facets[f][0]
            k = 1 if (all(x[0] == 0 for x in q) if s["diri"] == "left" else s["diri"] == "some" and rng.random() < 0.3) else 2
            m.Add((nm.Element1D if d == 2 else lambda p, index: nm.Element2D(index, p))([pid[x] for x in q], index=k))
    for k in (1, 2):
        m.SetBCName(k - 1, "dn"[k - 1])
    m.SetMaterial(1, "dom")
    return m


def mesh(s, env):
    if env.np == 1:
        return ngsolve.Mesh(grid(s))
    from pyngcore import MPI_Comm
    comm = MPI_Comm(env.comm)
    if env.rank == 0:
        m = grid(s)
        m.Distribute(comm)
    else:
        m = nm.Mesh.Receive(comm)
    return ngsolve.Mesh(m)


def problem(s, env):
    from ngsolve import H1, VectorH1, BilinearForm, grad, InnerProduct, dx, x, y, z
    m = mesh(s, env)
    d = m.dim
    p, form = s["problem"], s.get("space", "h1")
    kw = {"order": s.get("order", 1), "dirichlet": "d"}
    vkw = lambda kw: kw
    if "fixed" in s:          # only these components are fixed
        vkw = lambda kw: dict({q: v for q, v in kw.items() if q != "dirichlet"}, **{"dirichlet" + "xyz"[k]: "d" for k in s["fixed"]})
    ckw = lambda kw, k: kw if k in s.get("fixed", [k]) else {q: v for q, v in kw.items() if q != "dirichlet"}
    for k in ("nodalp2", "wb_withedges"):
        if k in s:
            kw[k] = s[k]
    coef = {"one": 1, "smooth": 1 + x * y, "jump": 1 + 999 * ngsolve.IfPos((x - 1.5) * (y - 1.5), 1, 0)}[s["coef"]]
    if "factor" in s:
        coef = coef * env.factor
    c = s["mass"]
    wrap = {"reorder": ngsolve.comp.Reorder, "compress": ngsolve.Compress}.get(s.get("wrap"), lambda V: V)
    bkw = {"symmetric": bool(s["sym"])}
    for k in ("condense", "eliminate_internal"):
        if s.get(k):
            bkw[k] = True
    mat = lambda q: ngsolve.CF(tuple(q[i, j] for i in range(d) for j in range(d)), dims=(d, d))
    if p == "h1":
        V = wrap(H1(m, **kw))
        u, v = V.TnT()
        a = BilinearForm(V, **bkw)
        a += coef * grad(u) * grad(v) * dx + c * u * v * dx
        cls = "h1_scal"
    elif p == "rot":
        nr = d * (d - 1) // 2
        if form == "multi":
            V = wrap(H1(m, dim=d + nr, **kw))
            tt = V.TnT()
            us = [ngsolve.CF(tuple(w[i] for i in range(d))) for w in tt]
            ws = [[w[i] for i in range(d, d + nr)] for w in tt]
            gs = [mat(grad(w)) for w in tt]
        else:
            V = wrap(ngsolve.FESpace([VectorH1(m, **vkw(kw)), VectorH1(m, **kw) if d == 3 else H1(m, **kw)]))
            tt = V.TnT()
            us = [w[0] for w in tt]
            ws = [w[1] if d == 3 else [w[1]] for w in tt]
            gs = [grad(w[0]) for w in tt]
        if d == 2:
            skew = lambda w: ngsolve.CF((0, -w[0], w[0], 0), dims=(2, 2))
        else:
            skew = lambda w: ngsolve.CF((0, -w[2], w[1], w[2], 0, -w[0], -w[1], w[0], 0), dims=(3, 3))
        a = BilinearForm(V, **bkw)
        a += coef * InnerProduct(gs[0] - skew(ws[0]), gs[1] - skew(ws[1])) * dx + c * InnerProduct(us[0], us[1]) * dx
        cls = {2: "elast_2d", 3: "elast_3d"}[d]
    else:
        if form == "comp":
            V = wrap(ngsolve.FESpace([H1(m, **ckw(kw, k)) for k in range(s["ncomp"])]))
            tt = V.TnT()
            us = [ngsolve.CF(tuple(w)) for w in tt]
            gs = [ngsolve.CF(tuple(grad(q)[j] for q in w for j in range(d)), dims=(s["ncomp"], d)) for w in tt]
        else:
            V = wrap(VectorH1(m, **vkw(kw)) if form == "vec" else H1(m, dim=s["ncomp"], **kw))
            us = V.TnT()
            gs = [grad(w) if form == "vec" or p == "lap" else mat(grad(w)) for w in us]
        a = BilinearForm(V, **bkw)
        if p == "lap":
            a += coef * InnerProduct(gs[0], gs[1]) * dx + c * InnerProduct(us[0], us[1]) * dx
            cls = {2: "h1_2d", 3: "h1_3d"}[s["ncomp"]]
        else:
            e = lambda g: 0.5 * (g + g.trans)
            a += coef * InnerProduct(e(gs[0]), e(gs[1])) * dx + c * InnerProduct(us[0], us[1]) * dx
            cls = {2: "elast_2d", 3: "elast_3d"}[d]
    if s.get("bddc"):
        return V, a, lambda a, **kw: ngsolve.Preconditioner(a, "bddc", coarsetype="NgsAMG." + cls, **kw)
    return V, a, getattr(NgsAMG, cls)


def numbers(V, a, env):
    """global numbers of the local unknowns, number of unknowns, entries per number"""
    if env.np == 1:
        n = len(a.mat.CreateColVector())
        g = list(range(n))
    else:
        g, n = V.ParallelDofs().EnumerateGlobally()
        g = [int(x) for x in g]
    bs = V.dim
    return [q * bs + k for q in g for k in range(bs)], n * bs, bs


def data(seed, n, kind=0):
    r = random.Random(seed)
    return [0 if kind == 1 and r.random() < 0.8 else r.randint(-8, 8) for _ in range(n)]


def share(env, ids, x, st, seed):
    """this rank's part of the vector x"""
    if st:
        return [x[i] for i in ids]
    who = {}
    for r, l in enumerate(env.allids):
        for i in l:
            who.setdefault(i, []).append(r)
    out = []
    for i in ids:
        w = who[i]
        part = {r: random.Random("%d %d %d" % (seed, i, r)).randint(-5, 5) for r in w}
        out.append(part[env.rank] if w[-1] != env.rank else x[i] - sum(part[r] for r in w[:-1]))
    return out


def operator(s, env):
    env.factor = ngsolve.Parameter(s.get("factor", 1))
    V, a, cls = problem(s, env)
    pc = cls(a, **{k: (list(v) if isinstance(v, list) else v) for k, v in s["kw"].items()})
    try:
        a.Assemble()
        if "factor" in s:          # assembled again, with another coefficient
            env.factor.Set(1)
            a.Assemble()
    except Exception as e:
        if "Failed to construct any coarse levels" not in str(e):
            raise
        return {"nolevels": 1}
    B = pc.mat if s["via"] == "pc" else pc.GetAMGMatrix()
    ids, n, bs = numbers(V, a, env)
    env.allids = env.comm.allgather(ids)
    fr = V.FreeDofs(bool(s.get("condense") or s.get("eliminate_internal")))
    free = [i for k, i in enumerate(ids) if fr[k // bs]]
    par = env.np > 1
    # the smoother of a multilevel method for a singular problem is no subject here: every problem has Dirichlet values or mass
    ops = [{"op": "mult", "st": 1, "unit": i} for i in range(n)] + s["ops"]
    ev = []
    b, y = a.mat.CreateColVector(), a.mat.CreateRowVector()
    for k, o in enumerate(ops):
        x = [int(i == o["unit"]) for i in range(n)] if "unit" in o else data(o["seed"], n, o.get("kind", 0))
        if o.get("fresh"):
            b, y = a.mat.CreateColVector(), a.mat.CreateRowVector()
        ngsv.set_vec(b, [float(q) for q in share(env, ids, x, o["st"], 17 * k + 1)], o["st"] if par else -1)
        x0 = data(1000 + k, n)
        st0 = o.get("st0", 1)
        ngsv.set_vec(y, [float(q) for q in share(env, ids, x0, st0, 17 * k + 2)], st0 if par else -1)
        f = o.get("fac", 1)
        if o["op"] == "expr":
            y.data = B * b
        else:
            ngsv.apply(B, ["mult", "add", "trans", "transadd"].index(o["op"]), f, b, y)
        e = {"op": o["op"], "fac": str(f), "y": S(ngsv.get_vec(y)), "yst": ngsv.vec_stat(y) if par else 1,
             "b": S(ngsv.get_vec(b)), "bst": ngsv.vec_stat(b) if par else 1}
        e["x"] = " ".join(map(str, x))
        e["x0"] = " ".join(map(str, x0))
        e["unit"] = o.get("unit", -1)
        ev.append(e)
    acol = []
    for i in range(n):      # the matrix itself, column by column
        ngsv.set_vec(b, [float(q == i) for q in ids], 1 if par else -1)
        y.data = a.mat * b
        acol.append(S(ngsv.get_vec(y)))
    return {"n": n, "ids": ids, "free": free, "acol": acol, "ast": ngsv.vec_stat(y) if par else 1, "levels": -1 if s.get("bddc") else [pc.GetNLevels(r) for r in range(env.np)][env.rank], "events": ev}


def measure(s, env, over):
    """builds the hierarchy with these limits and describes every level of this rank"""
    V, a, cls = problem(s, env)
    kw = {k: (list(v) if isinstance(v, list) else v) for k, v in s["kw"].items()}
    kw.update({"ngs_amg_" + k: v for k, v in over.items()})
    pc = cls(a, **kw)
    err = ""
    try:
        a.Assemble()
    except Exception as e:
        err = "nolevels" if "Failed to construct any coarse levels" in str(e) else str(e)[:300]
    if env.np > 1:
        errs = env.comm.allgather(err)
    else:
        errs = [err]
    if any(errs):
        return {"errs": errs, "levels": [], "nlev": [], "nds": []}
    d = pc.GetMap()
    B = pc.GetAMGMatrix()
    lev = []
    for l in range(ngsv.dm_levels(d)):
        valid, nd, bs, ng, np_, rk = ngsv.dm_level(d, l)
        v = ngsv.dm_vec(d, l)
        q = {"in": int(valid), "nd": nd, "bs": bs, "glob": ng, "np": np_, "rank": rk, "vec": len(v) if v is not None and valid else -1}
        lev.append(q)
    nlev = [pc.GetNLevels(r) for r in range(env.np)]
    nds = [[pc.GetNDof(l, r) for l in range(nlev[r])] for r in range(env.np)]
    for l, q in enumerate(lev[:-1]):
        q["sm"], q["mat"] = ngsv.amg_smoothers(B, l)
    lev[-1]["sm"] = lev[-1]["mat"] = lev[-1]["nd"]
    return {"errs": errs, "levels": lev, "nlev": nlev, "nds": nds}


def levels(s, env):
    rng = random.Random(s["mseed"])
    nv = len({tuple(a + b for a, b in zip(c, o)) for c in s["cells"] for o in itertools.product((0, 1), repeat=s["dim"])})
    out = []
    base = dict(s["limits"])
    def go(over):
        r = measure(s, env, over)
        r["lim"] = {k: int(over.get(k, d)) for k, d in (("max_levels", 10), ("max_coarse_size", 50), ("min_coarse_size", 0))}
        r["thresh"] = str(over.get("rd_crs_thresh", 0.9))
        r["redist"] = int(s["kw"].get("ngs_amg_enable_redist", True))
        out.append(r)
        return r
    ref = go(base)
    sizes = [q["glob"] for q in ref["levels"]][1:]
    if env.np > 1:
        sizes = max(env.comm.allgather(sizes), key=lambda x: (len(x), x))
    sizes = [x for x in sizes if x > 0]
    for k in range(s["variants"]):
        o = dict(base)
        what = s["vary"][k % len(s["vary"])]
        c = rng.choice(sizes) if sizes else 1
        if what == "n":
            o["max_levels"] = rng.randint(1, len(sizes) + 2)
        elif what == "max":
            o["max_coarse_size"] = max(0, c + rng.choice([-1, 0, 0, 1]))
        elif what == "min":
            o["min_coarse_size"] = max(0, c + rng.choice([-1, 0, 0, 1]))
        elif what == "thresh":
            o["rd_crs_thresh"] = rng.choice([0.2, 0.35, 0.5, 0.7, 0.9])
        else:
            o.update({"max_levels": rng.randint(2, len(sizes) + 2), "max_coarse_size": max(0, c + rng.randint(-1, 1)), "min_coarse_size": max(0, rng.choice(sizes) + rng.randint(-1, 1)) if sizes else 0})
        if env.np > 1:
            o = env.comm.bcast(o, 0)
        go(o)
    return {"nv": nv, "builds": out}


def run(s, env):
    return {"operator": operator, "levels": levels}[s["kind"]](s, env)
