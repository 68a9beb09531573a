"""multigrid cycles, multigrid as a smoother, embedded multigrid"""
import ngsolve, NgsAMG, ngsv
from mapchain import Chain, S, nums
from scen_smooth import make
from scen_exchange import h


class Lev:
    """one level on a rank that has it, with the interface scen_smooth.make expects"""
    def __init__(self, ch, l, mat):
        L = ch.s["levels"][l]
        self.bs, self.par, self.n, self.mine = L["bs"], ch.par, len(ch.own[l]), ch.own[l]
        self.spm = mat
        pds = ngsv.udofs_pds(ch.ud[l]) if self.par else None
        self.A = ngsv.make_par(mat, pds, pds, "c2d") if self.par else mat

    def bits(self, free):
        return None if free is None else ngsv.bits([free[u] for u in self.mine])


def dense(mat, n, bs):
    d = ngsv.spm_rows(mat)
    m = [[0.0] * (n * bs) for _ in range(n * bs)]
    for i, cs in enumerate(d["cols"]):
        for j, v in zip(cs, d["vals"][i]):
            for a in range(bs):
                for b in range(bs):
                    m[i * bs + a][j * bs + b] += v[a * bs + b]
    return S(x for r in m for x in r)


def run(s, env):
    ch = Chain(s, env)
    nl = len(s["levels"])
    mats = ngsv.dm_assemble(ch.dm, ch.A)
    lev = [Lev(ch, l, mats[l]) if ch.act[l] else None for l in range(nl)]
    emb = s.get("emb", 0)           # the first step is the embedding
    sms = [make(lev[l], s["sm"][l]) if ch.act[l] and l < nl - 1 else None for l in range(nl)]
    for l in range(nl - 1):
        p = s["sm"][l].get("proxy")
        if sms[l] is not None and p:
            sms[l] = NgsAMG.ProxySmoother(sms[l], p["n"], bool(p["symm"]))

    def vec(l):
        return ngsv.udofs_vec(ch.ud[l])

    def setv(v, vals, st):
        ngsv.set_vec(v, vals, st if ch.par else -1)

    def columns(l, apply):
        out = []
        L = s["levels"][l]
        if not ch.act[l]:
            return out
        pos = {u: i for i, u in enumerate(ch.own[l])}
        x, b, r = vec(l), vec(l), vec(l)
        n = len(ch.own[l]) * L["bs"]
        for u in range(L["n"]):
            for a in range(L["bs"]):
                e = [0.0] * n
                if u in pos:
                    e[pos[u] * L["bs"] + a] = 1.0
                setv(b, e, 1)
                setv(x, [0.0] * n, 1)
                apply(x, b, r)
                if ch.par:
                    x.Cumulate()
                out.append(S(ngsv.get_vec(x)))
        return out
    last = nl - 1
    cinv = None
    if s["coarse"] == "op" and ch.act[last]:
        from scen_smooth import Elements
        L = s["levels"][last]
        m = Elements(s["mseed"] + 99, env.rank, ch.own[last], L["bs"]).spm()
        pds = ngsv.udofs_pds(ch.ud[last]) if ch.par else None
        cinv = ngsv.make_par(m, pds, pds, "c2d") if ch.par else m
    if s["coarse"] == "inv" and ch.act[last]:
        cinv = lev[last].spm.Inverse(inverse="sparsecholesky")
    Sf = [columns(l, lambda x, b, r: ngsv.smooth(sms[l], 0, 1, x, b, r, False, False, False)) for l in range(nl - 1)]
    Sb = [columns(l, lambda x, b, r: ngsv.smooth(sms[l], 1, 1, x, b, r, False, False, False)) for l in range(nl - 1)]

    def cop(x, b, r):
        x.data = cinv * b
    C = columns(last, cop) if cinv is not None else []
    dm = ch.dm
    if emb:
        dm = ngsv.dofmap(ch.steps[1:], False, True)
    amg = ngsv.amg(dm, [sms[l] for l in range(emb, nl - 1) if sms[l] is not None], s["coarse"] != "none" and bool(ch.act[last]), cinv, lev[last].A if ch.act[last] else None, s["vwb"])
    M = amg
    if emb:
        M = ngsv.amg_embed(sms[0] if s["fls"] else None, amg, ch.steps[0])
    ev = []
    tmp = {}
    for k, o in enumerate(s["ops"]):
        l = o["l"]
        rec = {"x0": "", "b0": "", "r0": "", "x1": "", "b1": "", "r1": "", "x0st": -1, "b0st": -1, "r0st": -1, "x1st": -1, "b1st": -1, "r1st": -1}
        if not ch.act[l]:
            ev.append(rec)
            continue
        L = s["levels"][l]
        ids = ch.own[l]
        sd = s["mseed"] + 17 * o.get("sd", k)

        def fill(v, st, salt, zero=False):
            setv(v, [0.0] * (len(ids) * L["bs"]) if zero else nums(sd, ids, L["bs"], salt, env.rank if st == 0 else 77), st)
        key = (l, o["buf"])
        if key not in tmp:
            tmp[key] = (vec(l), vec(l), vec(l))
        x, b, r = tmp[key]
        fill(x, o["xst"], 1, o.get("zero", o.get("xz")))
        fill(b, o["bst"], 2)
        if o.get("junk") == 1:
            setv(x, [float("nan")] * (len(ids) * L["bs"]), o["xst"])
        if o.get("chain"):                # go on with the last result as right-hand side
            fill(b, o["bst"], 4)
        fill(r, 0, 3)
        rec["x0"], rec["x0st"] = ch.get(x)
        if o.get("junk"):
            rec["x0"] = S([0.0] * (len(ids) * L["bs"]))
        rec["b0"], rec["b0st"] = ch.get(b)
        if o["op"] == "solve":
            key = ("solver", o["buf"])
            if key not in tmp:
                tmp[key] = ngsv.solver_amg(amg, 1, 1.0, bool(o["print"]))
            sv = tmp[key]
            ngsv.solver_max(sv, o["max"])
            ngsv.solver_tol(sv, o["tol"])
            ngsv.solver_save(sv, bool(o["save"]))
            if o["ru"]:
                ngsv.residual(lev[l].A, x, b, r)
                setv(x, [float(v) for v in rec["x0"].split()], rec["x0st"])
                setv(b, [float(v) for v in rec["b0"].split()], rec["b0st"])
            rec["r0"], rec["r0st"] = ch.get(r)
            how = o["how"]
            if how == "mult":
                ngsv.mat_mult(sv, b, x)
            elif how == "trans":
                ngsv.mat_multtrans(sv, b, x)
            elif how == "add":
                ngsv.mat_multadd(sv, o["fac"], b, x)
            elif how == "transadd":
                ngsv.mat_multtransadd(sv, o["fac"], b, x)
            else:
                ngsv.solver_solve(sv, x, b, r if how == "res" else None, bool(o["init"]), bool(o["xz"]), bool(o["ru"]))
            conv, need, errs = ngsv.solver_report(sv)
            xs, xst, rs, rst = ngsv.solver_rec(sv)
            rec["sv"] = {"conv": int(conv), "needed": need, "errs": S(errs) if o["save"] else "", "xs": [S(v) for v in xs], "rs": [S(v) for v in rs],
                         "xst": [v if ch.par else 1 for v in xst], "rst": [v if ch.par else 1 for v in rst]}
        elif o["op"] == "mult":
            how = o["how"]
            MM = amg if (emb and l > 0) else M
            if how == "mult":
                ngsv.mat_mult(MM, b, x)
            elif how == "trans":
                ngsv.mat_multtrans(MM, b, x)
            elif how == "add":
                ngsv.mat_multadd(MM, o["fac"], b, x)
            elif how == "transadd":
                ngsv.mat_multtransadd(MM, o["fac"], b, x)
        else:
            if o["ru"]:
                ngsv.residual(lev[l].A, x, b, r)
                setv(x, [float(v) for v in rec["x0"].split()], rec["x0st"])
                setv(b, [float(v) for v in rec["b0"].split()], rec["b0st"])
            rec["r0"], rec["r0st"] = ch.get(r)
            if o["op"] == "from":
                ngsv.amg_smooth_from(amg, l - emb, x, b, r, bool(o["ru"]), bool(o["ur"]), bool(o["xz"]))
            elif o["op"] == "asm":
                sm = ngsv.amg_smoother(amg, l - emb, bool(o["single"]))
                ngsv.smooth(sm, o["back"], 1, x, b, r, bool(o["ru"]), bool(o["ur"]), bool(o["xz"]))
            elif o["op"] == "sub":
                y = NgsAMG.AMGMatrix.SubAMGMatrix(amg, l - emb)
                ngsv.mat_mult(y, b, x)
            elif o["op"] == "cinv":
                ngsv.amg_cinv(M if l == 0 else amg, x, b)
            elif o["op"] == "bf":
                ngsv.amg_bf(M if l == 0 else amg, x, o["lev"] - emb, o["dof"] if o["rank"] < 0 else ch.own[o["lev"]].index(o["u"]) if env.rank == o["rank"] else 0, o["comp"], max(0, o["rank"]))
        if o["op"] not in ("from", "asm", "solve"):
            rec["r0"], rec["r0st"] = ch.get(r)
        rec["x1"], rec["x1st"] = ch.get(x)
        rec["b1"], rec["b1st"] = ch.get(b)
        rec["r1"], rec["r1st"] = ch.get(r)
        ev.append(rec)
    return {"own": ch.own, "act": ch.act, "A": [dense(mats[l], len(ch.own[l]), s["levels"][l]["bs"]) if ch.act[l] else "" for l in range(nl)],
            "Sf": Sf, "Sb": Sb, "C": C, "ev": ev}
