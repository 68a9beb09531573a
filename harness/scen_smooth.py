"""smoothing steps with all flags, of all smoothers, in one process and distributed"""
import ngsolve, NgsAMG, ngsv
from scen_classes import own
from scen_exchange import h


def S(v):
    return " ".join(repr(float(x)) for x in v)


class Elements:
    """local matrix = sum of q q^T over random small elements + a positive diagonal; entries are multiples of 1/4"""
    def __init__(self, seed, r, ids, bs, deg=(), grp=1):
        n = len(ids)
        self.n, self.bs = n, bs
        m = [[0.0] * (n * bs) for _ in range(n * bs)]
        pat = [{j for j in range(n) if ids[i] // grp == ids[j] // grp} for i in range(n)]
        pos = {u: i for i, u in enumerate(ids)}
        for i, u in enumerate(ids):
            for a in range(bs):
                if u in deg and a > 0:
                    continue
                m[i * bs + a][i * bs + a] += 0.25 * (1 + h(seed, u, a, 5) % 4)
        for e in range(n + 1 if n > 1 else 0):
            k = 2 + h(seed, r, e, 1) % 3
            loc = {h(seed, r, e, 2, j) % n for j in range(k)}
            loc = sorted(i for i in range(n) if any(ids[i] // grp == ids[j] // grp for j in loc))
            q = {i * bs + a: float(h(seed, r, e, 3, ids[i], a) % 5 - 2) for i in loc for a in range(bs) if not (ids[i] in deg and a > 0)}
            w = 0.5 * (1 + h(seed, r, e, 4) % 3)
            for i in q:
                for j in q:
                    m[i][j] += w * q[i] * q[j]
            for i in loc:
                pat[i] |= set(loc)
        self.m, self.pat = m, pat

    def spm(self):
        bs = self.bs
        cols = [sorted(p) for p in self.pat]
        vals = [[[self.m[i * bs + a][j * bs + b] for a in range(bs) for b in range(bs)] for j in cols[i]] for i in range(self.n)]
        return ngsv.make_spm(self.n, bs, bs, cols, vals)

    def dense(self):
        return S(v for r in self.m for v in r)


def nums(seed, ids, bs, salt, r=77):
    return [0.5 * (h(seed, salt, u, b, r) % 21 - 10) for u in ids for b in range(bs)]


class Setup:
    def __init__(self, s, env, pat, bs, seed, deg=()):
        self.s, self.env, self.bs, self.pat = s, env, bs, pat
        r = env.rank
        self.par = s["np"] > 1
        self.mine = own(pat, r) if self.par else list(range(len(pat)))
        self.n = len(self.mine)
        self.el = Elements(seed, r, self.mine, bs, deg, s.get("grp", 1))
        self.spm = self.el.spm()
        if self.par:
            self.pds = ngsv.make_pds([[q for q in pat[u] if q != r] for u in self.mine], bs, True)
            self.A = ngsv.make_par(self.spm, self.pds, self.pds, "c2d")
        else:
            self.pds, self.A = None, self.spm

    def vec(self, vals=None, st=1):
        vals = [0.0] * (self.n * self.bs) if vals is None else vals
        return ngsv.make_vec(self.pds, vals, st) if self.par else ngsv.serial_vec(self.n, self.bs, vals)

    def set(self, v, vals, st=1):
        ngsv.set_vec(v, vals, st if self.par else -1)

    def get(self, v):
        return ngsv.get_vec(v)

    def stat(self, v):
        return ngsv.vec_stat(v) if self.par else 1

    def bits(self, free):
        return None if free is None else ngsv.bits([free[u] for u in self.mine])


def local_blocks(su, blocks):
    """global blocks restricted to the unknowns the rank holds, as local numbers"""
    pos = {u: i for i, u in enumerate(su.mine)}
    b = [[pos[u] for u in bl if u in pos] for bl in blocks]
    return [x for x in b if x]


def make(su, c):
    """the base smoother of configuration c"""
    k, bs, free = c["kind"], su.bs, su.bits(c.get("free"))
    th, ov = bool(c.get("thread")), bool(c.get("overlap"))
    if k == "gs":
        return NgsAMG.CreateHybridGSS(mat=su.A, freedofs=free, pinv=bool(c.get("pinv")), NG_MPI_overlap=ov, NG_MPI_thread=th,
                                      symm_loc=bool(c.get("symm_loc")), nsteps_loc=c.get("nloc", 1))
    if k == "bs":
        return NgsAMG.CreateHybridBlockGSS(mat=su.A, blocks=local_blocks(su, c["blocks"]), NG_MPI_overlap=ov, NG_MPI_thread=th, shm=bool(c.get("shm")),
                                           sl2=bool(c.get("sl2")), bs2=bool(c.get("bs2")), pinv=bool(c.get("pinv")), blocks_no=bool(c.get("no")),
                                           symm_loc=bool(c.get("symm_loc")), nsteps_loc=c.get("nloc", 1))
    if k == "di":
        return NgsAMG.CreateHybridDISmoother(mat=su.A, freedofs=free, NG_MPI_overlap=ov, NG_MPI_thread=th)
    if k == "jac":
        return ngsv.jacobi(su.A, free, c["omega"], bs)
    if k == "gss4":
        return ngsv.gss4(su.A, free, bool(c.get("pinv")), bs)
    if k == "dyn":
        if su.par:
            return ngsv.hybdynsm(su.A, free, c.get("nloc", 1), th, ov, c["omega"])
        su.dyn = ngsv.to_dyn(su.A)
        return ngsv.dynsm(su.dyn, free, c["omega"])
    raise Exception("harness: kind " + k)


def columns(su, sm, back):
    """the operator that is applied to the residual: columns for all global scalar unknowns, local rows"""
    if su.s.get("nocols"):
        return []
    out = []
    x, b, res = su.vec(), su.vec(), su.vec()
    pos = {u: i for i, u in enumerate(su.mine)}
    z = [0.0] * (su.n * su.bs)
    for u in range(len(su.pat)):
        for a in range(su.bs):
            e = list(z)
            if u in pos:
                e[pos[u] * su.bs + a] = 1.0
            su.set(b, e, 1)
            su.set(x, z, 1)
            su.set(res, z, 0)
            ngsv.smooth(sm, 1 if back else 0, 1, x, b, res, False, False, False)
            out.append(S(su.get(x)))
    return out


def pc_run(s, su, sm, extra):
    bs, ids = su.bs, su.mine
    proxies = [NgsAMG.ProxySmoother(sm, p["n"], bool(p["symm"])) for p in s["proxies"]]
    ev = []
    x, b, res = su.vec(), su.vec(), su.vec()
    for k, o in enumerate(s["ops"]):
        r = su.env.rank
        sm_ = sm if o["tgt"] < 0 else proxies[o["tgt"]]
        def fill(v, st, salt):
            su.set(v, nums(s["mseed"] + 17 * k, ids, bs, salt, r if st == 0 else 77), st)
        fill(x, o["xst"], 1)
        if o["xz"]:
            su.set(x, [0.0] * (su.n * bs), 1)
        fill(b, o["bst"], 2)
        if o.get("chain") and k > 0:      # go on with what the last step left
            su.set(x, lastx, lastxs)
            su.set(b, lastb, lastbs)
        fill(res, 0, 3)
        rec = {"x0": S(su.get(x)), "x0st": su.stat(x), "b0": S(su.get(b)), "b0st": su.stat(b)}
        if o["ru"]:
            ngsv.residual(su.A, x, b, res)
            if o["rst"] and su.par:
                res.Cumulate()
            if o["xst"] == 0 and su.par:      # the product has cumulated the start vector
                su.set(x, [float(v) for v in rec["x0"].split()], rec["x0st"])
            su.set(b, [float(v) for v in rec["b0"].split()], rec["b0st"])
        rec["r0"], rec["r0st"] = S(su.get(res)), su.stat(res)
        ngsv.smooth(sm_, o["op"], o["k"], x, b, res, bool(o["ru"]), bool(o["ur"]), bool(o["xz"]))
        lastx, lastxs, lastb, lastbs = su.get(x), su.stat(x), su.get(b), su.stat(b)
        for nm, v in (("x1", x), ("b1", b), ("r1", res)):
            rec[nm], rec[nm + "st"] = S(su.get(v)), su.stat(v)
        ev.append(rec)
    d = {"own": ids, "A": su.el.dense(), "ev": ev}
    d.update(extra)
    return d


def run(s, env):
    if s["kind"] == "hpt":
        return hiptmair(s, env)
    su = Setup(s, env, s["pat"], s["bs"], s["mseed"], s.get("deg", ()))
    sm = make(su, s)
    ex = {"Sf": columns(su, sm, False), "Sb": columns(su, sm, True)}
    if s.get("nloc", 1) > 1:
        s1 = make(su, dict(s, nloc=1))
        ex["Sf1"], ex["Sb1"] = columns(su, s1, False), columns(su, s1, True)
    if su.par:
        H = ngsv.hybrid(su.A, None, su.bs)
        ex["master"] = ngsv.hybrid_masters(H)
    if s["kind"] == "dyn" and not su.par:
        ex["dynblocks"] = [b["rows"] for b in ngsv.dyn_blocks(su.dyn)]
    if s["kind"] == "dyn" and su.par:
        M = ngsv.hybrid_parts(ngsv.dyn_hybrid(su.A, None))[0]
        ex["dynblocks"] = [[su.mine[i] for i in b["rows"]] for b in ngsv.dyn_blocks(M) if b["nze"]]
    return pc_run(s, su, sm, ex)


def hiptmair(s, env):
    su = Setup(s, env, s["pat"], 1, s["mseed"])
    sp = Setup(s, env, s["pat2"], 1, s["mseed"] + 5)
    loc = {u: i for i, u in enumerate(sp.mine)}
    cols, vals = [], []
    for u in su.mine:
        row = [(loc[p], v) for p, v in s["D"][u] if p in loc]
        row.sort()
        cols.append([c for c, v in row])
        vals.append([[float(v)] for c, v in row])
    d = ngsv.make_spm(sp.n, 1, 1, cols, vals)
    dt = ngsv.transpose(d)
    if su.par:
        D, DT = ngsv.make_par(d, su.pds, sp.pds, "c2c"), ngsv.make_par(dt, sp.pds, su.pds, "d2d")
    else:
        D, DT = d, dt
    sr, spm = make(su, s["rsm"]), make(sp, s["psm"])
    sm = ngsv.hiptmair(spm, sr, sp.A, su.A, D, DT, bool(s["adopt"]), bool(s["potfirst"]))
    ex = {"own2": sp.mine, "Pf": columns(sp, spm, False), "Pb": columns(sp, spm, True), "Rf": columns(su, sr, False), "Rb": columns(su, sr, True)}
    ex["Sf"], ex["Sb"] = columns(su, sm, False), columns(su, sm, True)
    return pc_run(s, su, sm, ex)
