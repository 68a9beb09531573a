"""options: objects driven by behaviours of the specification, option sets, preconditioners"""
import ngsolve, NgsAMG, ngsv
import ngsv_opts as O
from mapchain import S
MESH = {}


def objects(s):
    obj = {}
    ev = []
    for c in s["ops"]:
        op, i = c["op"], c["i"]
        if op == "make":
            obj[i] = O.opt_make(s["type"], c["gen"], c["list"], c["how"])
        elif op == "read":
            obj[i].read(c["flags"], "ngs_amg_opt", c["how"])
        elif op == "copy":
            obj[i] = obj[c["j"]].copy(c["how"])
        elif op == "assign":
            obj[i].assign(obj[c["j"]], c["how"])
        elif op == "default":
            obj[i].assign_default(c["gen"])
        elif op == "or":
            obj[i].combine(obj[c["j"]])
        ev.append({"vals": [obj[k].get() if k in obj else [] for k in (1, 2, 3)], "made": [int(k in obj) for k in (1, 2, 3)]})
    return {"events": ev}


def mesh(dim, n):
    if (dim, n) not in MESH:
        import ngsolve.meshes as M
        MESH[dim, n] = M.MakeStructured2DMesh(quads=False, nx=n, ny=n) if dim == 2 else M.MakeStructured3DMesh(hexes=False, nx=n, ny=n, nz=n)
    return MESH[dim, n]


def form(s):
    from ngsolve import H1, VectorH1, BilinearForm, grad, InnerProduct, dx, CF, x, y
    m = mesh(s.get("dim", 2), s["n"])
    d = "left" if s.get("dim", 2) == 2 else "left"
    if s["space"] == "h1":
        V = H1(m, order=1, dirichlet=d)
        u, v = V.TnT()
        a = BilinearForm(V, symmetric=True)
        a += (1 + x * y) * grad(u) * grad(v) * dx
        return a, NgsAMG.h1_scal
    V = VectorH1(m, order=1, dirichlet=d)
    u, v = V.TnT()
    a = BilinearForm(V, symmetric=True)
    e = lambda w: 0.5 * (grad(w) + grad(w).trans)
    a += InnerProduct(e(u), e(v)) * dx + 0.1 * InnerProduct(grad(u), grad(v)) * dx
    return a, NgsAMG.elast_2d if s.get("dim", 2) == 2 else NgsAMG.elast_3d


def pc_options(s):
    a, cls = form(s)
    pc0 = cls(a, ngs_amg_max_levels=2)
    a2, _ = form(s)
    pc1 = cls(a2, **s["kw"])
    out = []
    for b, pc in ((a, pc0), (a2, pc1)):
        pc.InitLevel(b.space.FreeDofs())
        out.append(O.pc_options(pc))
    return {"before": out[0], "after": out[1]}


BASE = {"ngs_amg_max_coarse_size": 3, "ngs_amg_max_levels": 4, "ngs_amg_log_level": "none", "ngs_amg_print_log": False}


def build(s, kw):
    a, cls = form(s)
    k = dict(BASE)
    k.update(kw)
    k = {x: (list(v) if isinstance(v, list) else v) for x, v in k.items()}
    pc = cls(a, **k)
    a.Assemble()
    return pc, a


def act(sm, n, symm, A, b):
    """n steps of the smoother from zero"""
    x, r = A.CreateColVector(), A.CreateColVector()
    x[:] = 0
    r[:] = 0
    for _ in range(n):
        ngsv.smooth(sm, 0, 1, x, b, r, False, False, False)
        if symm:
            ngsv.smooth(sm, 1, 1, x, b, r, False, False, False)
    return S(x.FV().NumPy())


def rhs(A, k):
    b = A.CreateColVector()
    f = b.FV().NumPy()
    for i in range(len(f)):
        f[i] = ((i * 7 + k * 13) % 11) - 5
    return b


def levels(s):
    """the smoothers of a preconditioner with options per level against those of preconditioners with one choice"""
    ref = {t: build(s, {"ngs_amg_sm_type": t})[0] for t in s["types"]}
    pc, _ = build(s, s["kw"])
    n = pc.GetNLevels(0)
    out = []
    differ = 0
    for k in range(n - 1):
        c = s["want"][min(k, len(s["want"]) - 1)]
        sm, rs = pc.GetSmoother(k), ref[c["type"]].GetSmoother(k)
        A = sm.GetMatrix()
        b = rhs(A, k)
        got, want = act(sm, 1, False, A, b), act(rs, c["n"], c["symm"], A, b)
        others = [act(ref[t].GetSmoother(k), c["n"], c["symm"], A, b) for t in s["types"] if t != c["type"]]
        differ += sum(o != want for o in others)
        out.append({"level": k, "got": got, "want": want, "levels": n, "wlevels": ref[c["type"]].GetNLevels(0)})
    return {"events": out, "differ": differ}


def cycles(s):
    """the kind of cycle and the treatment of the coarsest level"""
    base, a = build(s, {})
    amg = base.GetAMGMatrix()
    out = []
    for c, cl in s["cycles"]:
        kw = {"ngs_amg_mg_cycle": c} if c else {}
        if cl:
            kw["ngs_amg_clev"] = cl
        pc, _ = build(s, kw)
        b, x, y = a.mat.CreateColVector(), a.mat.CreateColVector(), a.mat.CreateColVector()
        b.FV().NumPy()[:] = rhs(a.mat, 3).FV().NumPy()
        x.data = pc.mat * b
        ref = amg if cl != "none" else ngsv.amg(base.GetMap(), [base.GetSmoother(k) for k in range(base.GetNLevels(0) - 1)], False, None, None, 0)
        ngsv.amg_vwb(ref, {"W": 1, "BS": 2}.get(c, 0))
        y.data = ref * b
        out.append({"level": 0, "got": S(x.FV().NumPy()), "want": S(y.FV().NumPy()), "levels": pc.GetNLevels(0), "wlevels": base.GetNLevels(0)})
    return {"events": out, "differ": len({e["want"] for e in out}) - 1}


def run(s, env):
    k = s["kind"]
    if k == "objects":
        return objects(s)
    if k == "sets":
        b, a = O.opt_apply(s["set"], s["defaults"], s["flags"])
        return {"before": b, "after": a}
    return {"pc": pc_options, "levels": levels, "cycles": cycles}[k](s)
