"""sparse matrix algebra and array helpers, in one process"""
import ngsolve, ngsv
from ngsolve.ngstd import IntRange
from ngsolve.la import BlockMatrix, Embedding, IdentityMatrix


def toint(v):
    return int(v) if v == v and abs(v) < 1e15 and v == int(v) else 987654321


def rows(m):
    d = dict(ngsv.spm_rows(m))
    d["vals"] = [[[toint(x) for x in e] for e in r] for r in d["vals"]]
    return d


def mk(m):
    return ngsv.make_spm(m["w"], m["bh"], m["bw"], m["cols"], [[[float(x) for x in e] for e in r] for r in m["vals"]])


def expr(x):
    k = x["k"]
    if k == "leaf":
        return mk(x["m"])
    if k == "T":
        return expr(x["a"]).T
    if k == "mul":
        return expr(x["a"]) @ expr(x["b"])
    if k == "sum":
        return expr(x["a"]) + expr(x["b"])
    if k == "id":
        return IdentityMatrix(x["nn"])
    if k == "embed":
        a = expr(x["a"])
        return Embedding(x["hh"], IntRange(x["oo"], x["oo"] + x["na"])) @ a
    if k == "block":
        return BlockMatrix([[None if b["k"] == "none" else expr(b) for b in r] for r in x["b"]])


def run(s, env):
    ev = []
    for o in s["ops"]:
        op = o["op"]
        rec = {}
        if op.startswith("a_"):
            f = getattr(ngsv, op)
            if op in ("a_find", "a_find_cmp", "a_mergepos", "a_insert", "a_insert_nodups", "a_insert_unique", "a_remove"):
                rec["out"] = f(o["x"], o["a"])
            elif op == "a_merge":
                rec["out"] = f(o["t"])
            elif op == "a_reduce":
                rec["out"] = f(o["t"], o["x"])
            elif op == "a_inv":
                rec["out"] = f(o["a"])
            elif op == "a_partition":
                rec["out"] = f(o["a"], o["b"], o["bs"])
            else:
                rec["out"] = f(o["a"], o["b"])
        elif op == "to_sparse":
            rec["out"] = rows(ngsv.to_sparse(expr(o["x"])))
        elif op == "mm":
            rec["out"] = rows(ngsv.mm(mk(o["a"]), mk(o["b"])))
        elif op in ("transpose", "transpose_spm"):
            rec["out"] = rows(getattr(ngsv, op)(mk(o["a"])))
        elif op == "compress":
            rec["out"] = rows(ngsv.compress(mk(o["a"]), o["t2"] / 2.0))
        elif op == "restrict_blocks":
            rec["out"] = rows(ngsv.restrict_blocks(mk(o["a"]), o["rb"], o["cb"]))
        elif op == "restrict_keep":
            ap, out = ngsv.restrict_keep(mk(o["a"]), mk(o["p"]), mk(o["pt"]))
            rec["ap"], rec["out"] = rows(ap), rows(out)
        elif op == "restrict_tm":
            rec["out"] = rows(ngsv.restrict_tm(mk(o["a"]), mk(o["p"])))
        elif op == "mm_update":
            a, b, a2, b2 = mk(o["a0"]), mk(o["b0"]), mk(o["a"]), mk(o["b"])
            c = ngsv.mm(a, b)
            ngsv.mm_update(a2, b2, c)
            rec["out"] = rows(c)
        elif op == "apply":
            a = mk(o["a"])
            x = ngsv.serial_vec(len(o["x"]) // o["bx"], o["bx"], [float(v) for v in o["x"]])
            y = ngsv.serial_vec(len(o["y0"]) // o["by"], o["by"], [float(v) for v in o["y0"]])
            ngsv.apply(a, o["v"], float(o["s"]), x, y)
            rec["out"] = [toint(v) for v in ngsv.get_vec(y)]
        ev.append(rec)
    return {"ev": ev}
