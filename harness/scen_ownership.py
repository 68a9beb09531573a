import ngsv
from scen_classes import own
from scen_exchange import h


def expand(vals, bs):
    return [u for v in vals for u in v] if bs > 1 else vals


def run(s, env):
    r, pat, bs = env.rank, s["pat"], s["bs"]
    mine = own(pat, r)
    dps = [[q for q in pat[i] if q != r] for i in mine]
    pds = ngsv.make_pds(dps, bs, True)
    maps = []
    for kind in s["maps"]:
        if kind == "basic":
            maps.append(ngsv.basic_dcc(pds))
        else:
            maps.append(ngsv.chunked_dcc(ngsv.eqc_from_pds(pds, False, -1, None), pds, s["chunk"]))
    n = len(mine) * bs
    ids = [u * bs + b + 1 for u in mine for b in range(bs)]
    vecs = [ngsv.make_vec(pds, [0.0] * n, 0) for _ in range(3)]
    obs = lambda v: {"val": [int(x) if x == x and abs(x) < 1e9 else 123456789 for x in ngsv.get_vec(v)], "st": ngsv.vec_stat(v)}
    ev = []
    for k, o in enumerate(s["ops"]):
        op, m, x = o["op"], o["m"], o["x"]
        v = vecs[o["v"] - 1]
        rec = {}
        if op == "setd":
            ngsv.set_vec(v, [float(h(k, r, i, o["v"], s["vseed"]) % 1000 - 300) for i in ids], 0)
        elif op == "setc":
            ngsv.set_vec(v, [float(h(k, 77, i, o["v"], s["vseed"]) % 1000 - 300) for i in ids], 1)
        elif op == "poke":     # what may be added to a vector while its exchange is under way: anything but shared entries that went off
            add = [h(k, r, i, x) % 50 if h(k, i, x) % 3 == 0 else 0 for i in ids]
            ngsv.set_vec(v, [a + b for a, b in zip(ngsv.get_vec(v), add)], -1)
            rec["add"] = add
        elif op.startswith("Finish") or op == "WaitD2C":
            getattr(maps[m - 1], op)()
        else:
            getattr(maps[m - 1], op)(v)
        rec.update(obs(v))
        ev.append(rec)
    masters, mex, gex = [], [], []
    for mp in maps:
        ms = mp.masters()
        nb, mm, gg = mp.exdofs()
        masters.append([x for x in ms for _ in range(bs)])
        mex.append(mm)
        gex.append(gg)
    return {"ev": ev, "own": ids, "nodes": [u + 1 for u in mine], "masters": masters, "mex": mex, "gex": gex, "nb": nb}
