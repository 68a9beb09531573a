"""Chains of coarsening and redistribution steps on a mesh of vertices and edges."""
import ngsv
import ngsv_mesh as nm
from scen_exchange import h
from scen_classes import own


def stage(m, ranks):
    """what this rank knows of a mesh; classes by the (world) ranks that hold them"""
    if m is None:
        return {"neqcs": 0, "nv": 0, "ne": 0, "nvg": 0, "neg": 0, "hold": [], "act": 0, "data": {"v0": [], "v1": [], "e": [], "vst": 1, "est": 1}}
    d = m.dump()
    info = m.eqc().info()
    d["dps"] = [[ranks[q] for q in c] for c in info["dps"]]
    d["act"] = 1
    return d


def num(x):
    """exact when whole"""
    return [int(v) if v == int(v) else repr(v) for v in x]


def data(m):
    d = m.data()
    for k in ("v0", "v1", "e"):
        d[k] = num(d[k])
    return d




def run(s, env):
    r, pat = env.rank, s["pat"]
    mine = own(pat, r)
    dps = [[q for q in pat[i] if q != r] for i in mine]
    if env.np == 1:
        e = nm.dummy_eqc()
    elif s["idle"]:
        e = ngsv.eqc_from_pds(ngsv.make_pds(dps, 1, True), True, -1, None)
    else:
        rows = []
        for d in dps:
            if d not in rows:
                rows.append(d)
        if mine and [] not in rows:
            rows.append([])
        e = ngsv.eqc_from_table(rows, True, False)
    loc = {g: k for k, g in enumerate(mine)}
    edges = [k for k, (a, b, lst) in enumerate(s["edges"]) if r in lst]
    ranks = list(range(env.np))
    m = nm.build_mesh(e, dps, [[loc[s["edges"][k][0]], loc[s["edges"][k][1]]] for k in edges])
    out = {"stages": [], "steps": []}
    d0 = m.dump()
    # global numbers of local vertices, and of edges through them
    vg = [0] * len(mine)
    for i, g in enumerate(mine):
        vg[m.vsort[i]] = g
    eg = {tuple(sorted((a, b))): k for k, (a, b, lst) in enumerate(s["edges"])}
    el = [eg.get(tuple(sorted((vg[a], vg[b]))), -1) for a, b in d0["e"]]
    out["vg"] = [g + 1 for g in vg]
    out["vsort"], out["esort"], out["listed"] = m.vsort, m.esort, [k + 1 for k in edges]
    if d0["neqcs"] and env.np >= 1:
        out["econ"] = m.econ()
    else:
        out["econ"] = []
    # attached data
    w = s["data"]
    if w["dist"]:
        v0 = [h(s["seed"], 1, g, r) % 4 for g in vg]
        v1 = [h(s["seed"], 2, g, r) % 4 for g in vg]
        ed = [1 + h(s["seed"], 3, k, r) % 9 for k in el]
    else:
        v0, v1 = [w["v0"][g] for g in vg], [w["v1"][g] for g in vg]
        ed = [w["e"][k] for k in el]
    m = m.attach(v0, v1, 1 - w["dist"], ed, 1 - w["dist"])

    def show(m):
        st = stage(m, ranks)
        if m is not None:
            st["data"] = data(m) if (st["neqcs"] or 1) else {}
            st["in"], st["sum"], st["sca"] = [], [], []
            if s["nodal"]:
                for nt in (0, 1):
                    n = st["ne"] if nt else st["nv"]
                    x = [h(s["seed"], 7, r, i, nt) % 50 for i in range(n)]
                    st["in"].append(x)
                    st["sum"].append(m.sum(nt, x, bool(s["seed"] % 2)))
                    st["sca"].append(m.scatter(nt, x))
        out["stages"].append(st)

    show(m)
    free = [0] * 0
    prev = None
    for k, t in enumerate(s["steps"]):
        rec = {}
        if m is not None:
            if t.get("cum"):
                m.cumulate()
            if t.get("distr"):
                m.distribute()
            if t["kind"] == "crs":
                fr = [s["free"][g] for g in vg] if (k == 0 and "free" in s) else []
                c = nm.coarsen(m, t["alg"], t["level"], [tuple(f) for f in t["flags"]], fr, k == 0 and "free" in s)
                m2 = c.mesh()
                rec = {"vmap": c.map(0), "emap": c.map(1), "nn": c.nn(), "c2fv": c.c2f(0), "c2fe": c.c2f(1), "center": c.center(), "after": data(m)}
                rec["hasprev"] = int(prev is not None)
                if prev is not None:
                    cc = prev.concat(c)
                    rec["cv"], rec["ce"], rec["cnn"] = cc.map(0), cc.map(1), cc.nn()
                prev = c
                m = m2
            else:
                groups = t["groups"]
                if t.get("metis"):
                    groups = nm.metis(m, t["metis"], bool(s["idle"]))
                c = nm.Contract(m, groups, bool(t["oriented"]))
                n_loc = [m.dump()["nv"], m.dump()["ne"]]
                m2 = c.mesh()
                rec = {"groups": [[ranks[q] for q in g] for g in groups], "master": int(c.master()), "group": [ranks[q] for q in c.group()], "procmap": c.procmap(),
                       "vmaps": c.maps(0) if c.master() else [], "emaps": c.maps(1) if c.master() else [],
                       "flips": c.flips() if c.master() and t["oriented"] else []}
                me = ranks.index(r)
                extra = []
                for st in (0, 1):
                    for nt in (0, 1):
                        names = out["stages"][-1]
                        # consistent values only depend on the name of the node
                        if nt == 0:
                            key = [(sum(1 << q for q in names["dps"][c_]) | (1 << r), p) for c_, p in zip(names["vcls"], names["vpos"])] if names["nv"] else []
                        else:
                            key = [(sum(1 << q for q in names["dps"][c_]) | (1 << r), p) for c_, p in zip(names["ecls"], names["epos"])] if names["ne"] else []
                        x = [1 + h(s["seed"], 11, k, nt, a, b) % 90 for a, b in key] if st else [h(s["seed"], 13, k, nt, r, i) % 30 for i in range(n_loc[nt])]
                        o = c.data(nt, x, st)
                        extra.append({"st": st, "nt": nt, "in": x, "out": num(o)})
                rec["extra"] = extra
                ranks = [ranks[g[0]] for g in groups]
                m, prev = m2, None
        else:
            rec = {"none": 1}
        out["steps"].append(rec)
        show(m)
    # a copy by message
    out["sent"] = {}
    if "send" in s:
        a, b = s["send"]
        if r == a:
            m0 = nm.build_mesh(e, dps, [[loc[s["edges"][k][0]], loc[s["edges"][k][1]]] for k in edges])
            out["sent"] = m0.dump()
            m0.send(b)
        else:
            nm.build_mesh(e, dps, [[loc[s["edges"][k][0]], loc[s["edges"][k][1]]] for k in edges])
        if r == b:
            out["sent"] = nm.recv_mesh(a).dump()
    return out
