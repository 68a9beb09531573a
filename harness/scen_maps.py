"""transfers between levels: prolongations, redistributions, compositions of them"""
import ngsolve, NgsAMG, ngsv
from mapchain import Chain, S, nums


def dense(mat, n, bs):
    d = ngsv.spm_rows(mat)
    m = [[0.0] * (n * bs) for _ in range(d["h"] * d["bh"])]
    ok = d["h"] == n and d["w"] == n
    for i, cs in enumerate(d["cols"]):
        ok = ok and all(a < b for a, b in zip(cs, cs[1:]))
        for j, v in zip(cs, d["vals"][i]):
            for a in range(d["bh"]):
                for b in range(d["bw"]):
                    m[i * d["bh"] + a][j * d["bw"] + b] += v[a * d["bw"] + b]
    return S(x for r in m for x in r), int(ok)


def run(s, env):
    ch = Chain(s, env)
    nl = ch.nlev            # levels the rank has, an empty one at the end counted
    steps = ch.steps
    via = {}
    # what stands for the transfer between levels a and b
    def handle(how, a, b):
        k = (how, a, b)
        if k in via:
            return via[k]
        la, lb = min(a, nl - 1), min(b, nl - 1)
        if la >= lb:
            h = None
        elif how == "conc":
            h = ngsv.step_single(steps[la:lb])
            ngsv.step_finalize(h)
        elif how == "concsym":
            h = ngsv.dm_conc(ch.dm, la, lb, True)
        elif how == "concstep":
            h = ngsv.dm_conc(ch.dm, la, lb, False)
        elif how == "multi":
            h = ngsv.multimap([ngsv.step_single(steps[la:lb]), ngsv.step_single(steps[la:lb])])
            ngsv.step_finalize(h)
        elif how == "sub":
            h = ngsv.dm_sub(ch.dm, la, lb)
        elif how == "swap":
            h = ch.swap(a)
        else:
            h = None
        via[k] = h
        return h
    if s.get("asmfirst", 1):
        mats = ngsv.dm_assemble(ch.dm, ch.A)
    else:
        for t, st in zip(s["steps"], steps):
            if t["kind"] == "ctr":
                ngsv.setup_mpi(st)
        mats = []
    ev = []
    for k, o in enumerate(s["ops"]):
        a, b, how = o["a"], o["b"], o["how"]
        rec = {}
        f2c = o["op"] in (0, 1)
        hf, hc = ch.have(a), ch.have(b)
        xf = ch.vec(a, s["mseed"] + 13 * k, o["fst"], 1) if hf else None
        xc = ch.vec(b, s["mseed"] + 13 * k, o["cst"], 2) if hc else None
        rec["f0"], rec["f0st"] = ch.get(xf)
        rec["c0"], rec["c0st"] = ch.get(xc)
        if hf:
            if how == "dm":
                ngsv.dm_op(ch.dm, a, o["op"], o["fac"], xf, xc)
            elif how == "atob":
                if f2c:
                    ngsv.dm_atob(ch.dm, a, b, xf, xc)
                else:
                    ngsv.dm_atob(ch.dm, b, a, xc, xf)
            elif how == "sub":
                m = handle(how, a, b)
                ngsv.dm_op(m, 0, o["op"], o["fac"], xf, xc)
            else:
                h = handle(how, a, b)
                if h is not None:
                    ngsv.step_op(h, o["op"], o["fac"], xf, xc)
        elif how == "atob":
            if f2c:
                ngsv.dm_atob(ch.dm, a, b, None, None)
            else:
                ngsv.dm_atob(ch.dm, b, a, None, None)
        rec["f1"], rec["f1st"] = ch.get(xf)
        rec["c1"], rec["c1st"] = ch.get(xc)
        ev.append(rec)
    asm = []
    for l, m in enumerate(mats):
        L = s["levels"][l]
        if m is None:
            asm.append({"none": 1, "A": "", "ok": 1})
        else:
            d, ok = dense(m, len(ch.own[l]), L["bs"])
            asm.append({"none": 0, "A": d, "ok": ok})
    while len(asm) < len(s["levels"]):
        asm.append({"none": 1, "A": "", "ok": 1})
    extra = []
    if mats:
        for q in s.get("asm", []):            # the coarse matrix by the composed step
            la, lb = min(q["a"], nl - 1), min(q["b"], nl - 1)
            r = {"none": 1, "A": "", "ok": 1}
            if la < lb and mats[la] is not None:
                h = handle(q["how"], q["a"], q["b"])
                m = ngsv.step_assemble(h, mats[la])
                if m is not None:
                    d, ok = dense(m, len(ch.own[q["b"]]), s["levels"][q["b"]]["bs"])
                    r = {"none": 0, "A": d, "ok": ok}
            extra.append(r)
    return {"own": ch.own, "act": ch.act, "A": ch.dense0, "nlev": ngsv.dm_levels(ch.dm), "asm": asm, "extra": extra, "ev": ev,
            "mapped": [int(ngsv.step_vec(st, True) is not None) for st in steps],
            "dims": [list(ngsv.step_info(st)[1:]) for st in steps]}
