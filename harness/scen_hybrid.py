"""hybrid splitting of distributed symmetric matrices, and products with the split matrix"""
import ngsv
from scen_classes import own
from scen_exchange import h
from scen_lin import rows, toint


def sym_local(seed, r, ids, bs, dens, dyn):
    """random symmetric matrix between the unknowns ids (global numbers), entries bs x bs"""
    n = len(ids)
    cols, vals = [[] for _ in range(n)], [[] for _ in range(n)]
    for i in range(n):
        for j in range(n):
            u, v = ids[min(i, j)], ids[max(i, j)]
            if h(seed, r, u, v) % 100 >= dens:
                continue
            def e(a, b):
                if i > j or (i == j and a > b):
                    a, b = b, a
                return float(h(seed, r, u, v, a, b) % 19 - 9)
            cols[i].append(j)
            vals[i].append([e(a, b) for a in range(bs) for b in range(bs)])
    return cols, vals


NONE = {"h": -1, "w": 0, "bh": 1, "bw": 1, "cols": [], "vals": []}


def dynrows(m):
    """rows of a block-compressed matrix, in the format of sparse matrices"""
    info = ngsv.dyn_info(m)
    n, w = info["rowoff"][-1], info["coloff"][-1]
    r = [dict() for _ in range(n)]
    for b in ngsv.dyn_blocks(m):
        k = 0
        for i in b["rows"]:
            for j in b["cols"]:
                if j in r[i]:
                    r[i][j] = [123456789]      # an entry that is stored twice
                else:
                    r[i][j] = [toint(b["vals"][k])]
                k += 1
    return {"h": n, "w": w, "bh": 1, "bw": 1, "cols": [sorted(x) for x in r], "vals": [[x[j] for j in sorted(x)] for x in r]}


def run(s, env):
    r, pat, bs = env.rank, s["pat"], s["bs"]
    mine = own(pat, r)
    dps = [[q for q in pat[i] if q != r] for i in mine]
    pds = ngsv.make_pds(dps, bs, True)
    cols, vals = sym_local(s["mseed"], r, mine, bs, s["dens"], s["dyn"])
    a = ngsv.make_spm(len(mine), bs, bs, cols, vals)
    pa = ngsv.make_par(a, pds, pds, "c2d")
    dcc = None
    if s["map"] == "basic":
        dcc = ngsv.basic_dcc(pds)
    elif s["map"] == "chunked":
        dcc = ngsv.chunked_dcc(ngsv.eqc_from_pds(pds, False, -1, None), pds, s["chunk"])
    H = ngsv.dyn_hybrid(pa, dcc) if s["dyn"] else ngsv.hybrid(pa, dcc, bs)
    M, G, gg, gl = ngsv.hybrid_parts(H)
    f = dynrows if s["dyn"] else rows
    n = len(mine) * bs
    ids = [u * bs + b + 1 for u in mine for b in range(bs)]
    mst = ngsv.hybrid_masters(H) if dcc is None else dcc.masters()
    rec = {"own": ids, "A": rows(a), "M": f(M), "G": NONE if G is None else f(G), "gglob": int(gg), "master": [x for x in mst for _ in range(bs)]}
    ev = []
    x, y = ngsv.make_vec(pds, [0.0] * n, 0), ngsv.make_vec(pds, [0.0] * n, 0)
    for k, o in enumerate(s["ops"]):
        def fill(v, st, salt):
            vals = [float(h(s["mseed"], k, i, salt, r if st == 0 else 77) % 15 - 7) for i in ids]
            ngsv.set_vec(v, vals, st)
            return [int(q) for q in vals]
        x0, y0 = fill(x, o["xst"], 1), fill(y, o["yst"], 2)
        ngsv.apply(H, o["v"], float(o["s"]), x, y)
        ev.append({"x0": x0, "y0": y0, "x": [toint(q) for q in ngsv.get_vec(x)], "y": [toint(q) for q in ngsv.get_vec(y)], "xst": ngsv.vec_stat(x), "yst": ngsv.vec_stat(y)})
    rec["ev"] = ev
    return rec
