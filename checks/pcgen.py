"""Problems on small meshes, option sets and call sequences for scen_pc."""
import random


def cells(rng, dim, size, want):
    allc = [(x, y) for x in range(size[0]) for y in range(size[1])] if dim == 2 else [(x, y, z) for x in range(size[0]) for y in range(size[1]) for z in range(size[2])]
    if want >= len(allc):
        return allc
    c = {rng.choice(allc)}
    while len(c) < want:          # connected by facets
        k = rng.choice(sorted(c))
        j = rng.randrange(dim)
        q = k[:j] + (k[j] + rng.choice((-1, 1)),) + k[j + 1:]
        if q in allc:
            c.add(q)
    return sorted(c)


def problem(rng, np, big=1):
    act = max(np - 1, 1)
    p = rng.choice(["h1", "h1", "lap", "el", "el"])
    dim = 3 if rng.random() < 0.3 else 2
    s = {"dim": dim, "problem": p, "mseed": rng.randrange(10**6), "shake": rng.choice([0, 1]), "trig": rng.randint(0, 1), "coef": rng.choice(["one", "smooth", "jump"]),
         "sym": rng.randint(0, 1), "ncomp": 1 if p == "h1" else dim, "order": 1}
    if p == "lap":
        s["ncomp"] = rng.choice([2, 3])
    s["space"] = "multi" if p == "lap" and s["ncomp"] != dim else rng.choice(["vec", "multi"]) if p != "h1" else "h1"
    s["stretch"] = [rng.choice([1, 1, 1, 3, 0.2]) for _ in range(dim)]
    nv = int((26 if p == "h1" else 14 if dim == 2 else 12) * big)
    if p == "h1" and rng.random() < 0.25:
        s["order"] = 2
        nv = int(12 * big)
    if dim == 2:
        s["size"] = rng.choice([[3, 3], [2, 4], [5, 2], [4, 4], [7, 1]]) if p == "h1" else rng.choice([[2, 3], [3, 3], [2, 4], [5, 1]])
        want = max(nv - 8, 3 * act, 3)
    else:
        s["size"] = [2, 2, 2] if p == "h1" else rng.choice([[1, 1, 4], [2, 2, 1]])
        want = max(8 if p == "h1" else 3, 2 * act)
    s["cells"] = cells(rng, dim, s["size"], max(2, rng.randint(want // 2, want)))
    if len(s["cells"]) < 2 * act:
        s["cells"] = cells(rng, dim, s["size"], 2 * act)
    s["diri"] = rng.choice(["left", "some", "none", "left"])
    s["mass"] = 1 if s["diri"] != "left" or rng.random() < 0.3 else 0
    if s["diri"] == "left" and not any(c[0] == 0 for c in s["cells"]):
        s["mass"] = 1
    return s


def family(rng, np):
    """the ways to pose problems that the preconditioners accept beyond the lowest order: rotations, compound spaces, higher order, nodal P2, subsets, static condensation, BDDC"""
    act = max(np - 1, 1)
    kind = rng.choice(["rot", "rot", "ho", "ho", "nodalp2", "free", "reorder", "compress", "comp", "bddc", "condense", "again", "elmat", "improve"])
    if np > 1 and kind in ("improve", "reorder"):       # documented as serial only; NGSolve's reordered spaces are
        kind = "rot"
    if kind in ("rot", "again", "elmat", "improve") and rng.random() < 0.5 or kind in ("compress", "free"):
        s = problem(rng, np)
    else:
        s = problem(rng, np, 0.5)
    while kind == "elmat" and (s["problem"] != "h1" or s.get("order", 1) > 1):        # implemented for scalar problems of lowest order only
        s = problem(rng, np)
    while kind in ("reorder", "compress") and s["problem"] != "h1" and s["space"] in ("vec", "comp"):        # not for compound spaces (the repository's tests of it are commented out)
        s = problem(rng, np)
    s["family"] = kind
    opt = {}
    p = s["problem"]
    if kind == "rot":
        s["problem"] = "rot"
        s["space"] = rng.choice(["comp", "multi"]) if s["dim"] == 2 else "comp"
        opt["rots"] = True
        if s["dim"] == 3:
            s["order"] = 1
    elif kind == "ho":
        s["order"] = rng.choice([2, 2, 3]) if s["dim"] == 2 else 2
    elif kind == "nodalp2":
        s["tets"] = s["trig"] = 1
        s["order"], s["nodalp2"] = (3 if rng.random() < 0.2 else 2), True
        if s["order"] == 2:
            opt.update({"lo": False, "force_nolo": True})
        else:
            opt.update({"on_dofs": "select", "subset": "nodalp2"})
            if s["dim"] == 2 and s["problem"] != "h1":      # the option is meant for three dimensions; in two it takes all unknowns of compound spaces
                s["space"] = "multi"
    elif kind == "free":
        opt.update({"on_dofs": "select", "subset": "free"})
    elif kind in ("reorder", "compress"):
        s["wrap"] = kind
        if kind == "reorder" and p != "h1" and s["space"] == "vec":
            opt["dof_blocks"] = [s["ncomp"]]
    elif kind == "comp" and p == "lap":
        s["space"] = "comp"
    elif kind in ("bddc", "condense"):
        s["order"] = rng.choice([2, 3]) if s["dim"] == 2 else 2
        if kind == "bddc":
            s["bddc"] = 1
            if p != "h1":              # BDDC does not support spaces with several components per unknown
                s["space"] = "vec" if s["ncomp"] == s["dim"] else "comp"
            s["wb_withedges"] = rng.choice([True, False])
            s["eliminate_internal"] = rng.randint(0, 1)
        else:
            s["condense"] = 1
            s["order"] = 3 if s["dim"] == 2 else 2
    elif kind == "again":
        s["factor"] = rng.choice([0.01, 0.5, 3, 100])
    elif kind == "elmat":
        opt["energy"] = "elmat"
    elif kind == "improve":
        opt["sp_improve_its"] = rng.choice([1, 2])
    if s.get("order", 1) > 1 or s["problem"] == "rot":      # keep the number of unknowns small
        want = {"h1": 4, "lap": 2, "el": 2, "rot": 3}[s["problem"]]
        if s["dim"] == 3:
            want = 1 if s["problem"] == "h1" or s["order"] == 1 else 1
        s["cells"] = cells(rng, s["dim"], s["size"], max(want, act, 2))
        if s["diri"] == "left" and not any(c[0] == 0 for c in s["cells"]):
            s["mass"] = 1
    return s, opt


def options(rng, s):
    kw = {"ngs_amg_log_level": "none", "ngs_amg_print_log": False, "ngs_amg_max_coarse_size": rng.choice([1, 2, 3, 5]), "ngs_amg_max_levels": rng.choice([2, 3, 4, 10])}
    def maybe(p, k, *v):
        if rng.random() < p:
            kw["ngs_amg_" + k] = rng.choice(v)
    maybe(0.6, "sm_type", "gs", "bgs")
    maybe(0.5, "mg_cycle", "V", "W", "BS")
    maybe(0.4, "sm_symm", True)
    maybe(0.4, "sm_steps", 2, 3)
    maybe(0.5, "crs_alg", "spw", "mis")
    maybe(0.5, "prol_type", "piecewise", "aux_smoothed", "semi_aux_smoothed")
    maybe(0.2, "clev", "none")
    maybe(0.4, "energy", "alg", "triv")
    maybe(0.4, "enable_redist", True, False)
    maybe(0.3, "enable_multistep", True, False)
    maybe(0.2, "sp_max_per_row", 1, 2, 4)
    maybe(0.2, "sp_omega", 0.5, 1.0)
    maybe(0.2, "rd_pfac", 0.1, 0.5)
    maybe(0.2, "rd_min_nv_thresh", 1, 100)
    return kw


def calls(rng, n, par):
    out = []
    for k in range(n):
        o = {"op": rng.choice(["mult", "mult", "mult", "expr", "trans", "add", "transadd"]), "st": rng.randint(0, 1) if par else 1, "seed": rng.randrange(6), "kind": rng.randint(0, 1),
             "fac": rng.choice([1, -1, 0.5, 2]), "st0": rng.randint(0, 1) if par else 1, "fresh": int(rng.random() < 0.3)}
        out.append(o)
    return out
