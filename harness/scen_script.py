"""the stationary solver with a script of residuals"""
import ngsolve, ngsv


def num(v):
    return int(v) if float(v) == int(v) else 987654


def run(s, env):
    A = ngsv.make_spm(1, 1, 1, [[0]], [[[1.0]]])
    sv = ngsv.solver_script(A)
    out = []
    vec = lambda v: ngsv.serial_vec(1, 1, [float(v)])
    for k, c in enumerate(s["calls"]):
        ngsv.solver_max(sv, c["max"])
        ngsv.solver_tol(sv, c["tol"] / 4)
        if c["save"] or k or s.get("unsave"):            # not saving is what a new solver does
            ngsv.solver_save(sv, bool(c["save"]))
        f = c["flag"]
        e0 = c["es"][0]
        script = [float(x) for x in c["es"]] + [7.0] * 3
        ngsv.solver_set_script(sv, script)
        zero = f in ("zero", "zeroinit", "init", "mult", "madd")
        b0 = e0 if zero else e0 + 2 + k
        x0 = 0 if f in ("zero", "zeroinit") else 5 if zero else b0 - e0
        x, b, r = vec(x0), vec(b0), vec(e0 if f == "res" else -3)
        fac = 1
        if f == "mult":
            (ngsv.mat_mult if k % 2 else ngsv.mat_multtrans)(sv, b, x)
        elif f == "madd":
            fac = [2, -1, 0, 1][k % 4]
            (ngsv.mat_multadd if k % 2 else ngsv.mat_multtransadd)(sv, fac, b, x)
        else:
            ngsv.solver_solve(sv, x, b, None if f == "short" else r, f in ("init", "zeroinit"), f in ("zero", "zeroinit"), f == "res")
        conv, need, errs = ngsv.solver_report(sv)
        xs, xst, rs, rst = ngsv.solver_rec(sv)
        out.append({"max": c["max"], "tol": c["tol"], "save": c["save"], "flag": f, "fac": fac, "script": [int(v) for v in script], "b": b0, "x0": x0,
                    "steps": len(xs) - 1, "conv": int(conv), "needed": need, "errors": [num(v) for v in errs] if c["save"] else [], "hasres": int(f not in ("short", "mult", "madd")),
                    "res": num(ngsv.get_vec(r)[0]), "x": num(ngsv.get_vec(x)[0]), "b1": num(ngsv.get_vec(b)[0]), "xs": [num(v[0]) for v in xs], "rs": [num(v[0]) for v in rs]})
    return {"calls": out}
