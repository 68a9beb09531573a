"""C05: smoothing flags are hints."""
import random
import smoothgen


def traces(c, salt, n, frac, nops, **kw):
    rng = random.Random(c.seed * 1000 + salt)
    sc = [smoothgen.one(rng, k, c.seed, rng.random() < frac, nops=nops, **kw) for k in range(n)]
    return [smoothgen.to_trace(s, rs) for s, rs in c.harness("smooth", sc, tasks=True)]


def flagged(rng, k, seed, par):
    """multigrid as a smoother: the same call with every combination of flags that is true, between other calls"""
    import c08
    s = c08.one(rng, k, seed, par)
    nl, s["ops"] = len(s["levels"]), []
    for q in range(3):
        xz = rng.randint(0, 1)
        o = {"l": rng.randint(s["emb"], nl - 2), "op": rng.choice(["from", "asm"]), "how": "mult", "fac": 1, "bst": rng.randint(0, 1) if par else 1, "xst": 1,
             "single": rng.randint(0, 1), "back": rng.randint(0, 1), "buf": rng.randint(0, 1), "sd": 1000 + q, "grp": q}
        v = [(ru, ur, z) for ru in (0, 1) for ur in (0, 1) for z in (0, xz)[:1 + xz]]
        rng.shuffle(v)
        for ru, ur, z in v:
            if rng.random() < 0.2:
                s["ops"].append({"l": s["emb"], "op": "mult", "how": "mult", "fac": 1, "bst": 1, "xst": 1, "ru": 0, "ur": 0, "xz": 0, "buf": o["buf"]})
            s["ops"].append(dict(o, ru=ru, ur=ur, xz=z, zero=xz))
    return s


def flag_trace(s, rs):
    import c08
    t = c08.trace(s, rs)
    ev = []
    for o, e in zip(s["ops"], t["events"][1:-1]):
        if "grp" in o:
            if not ev or ev[-1]["grp"] != o["grp"]:
                ev.append({"op": "flags", "grp": o["grp"], "lev": o["l"], "sop": o["op"], "runs": []})
            ev[-1]["runs"].append({f: e[f] for f in ("ru", "ur", "xz", "x0", "b0", "r0", "x1", "b1", "r1", "x0st", "b0st", "r0st", "x1st", "b1st", "r1st")})
    t["events"] = ev + [t["events"][-1]]
    return t


def report(c, tr):
    c.cov["kinds"] = {k: sum(1 for t in tr if t["key"] == k) for k in sorted({t["key"] for t in tr})}
    c.samples = [{"kind": t["key"], "ops": t["scen"]["ops"][:2]} for t in tr[::max(1, len(tr) // 4)]]
    c.assumptions = ["symmetric positive definite matrices (all-zero rows inside blocks only with pseudo-inverses)",
                     "what the flags claim is true when the call is made (checked by the specification: clause Premise)",
                     "blocks do not overlap where the code refuses overlapping ones; BSmoother2 on blocks of some of the rows: the residual is compared at unknowns of blocks",
                     "floating point: compared with 1e-9 relative to the size of iterate and right-hand side; unchanged values bit for bit"]


def run(c):
    tr = traces(c, 5, c.pick(1500, 15000), 0.6, 6)
    for k in range(0, len(tr), 1500):
        c.validate("SmoothTrace", tr[k:k + 1500], "smoother", env={"PROPERTY": "C05"}, heap="8g")
    report(c, tr)
    rng = random.Random(c.seed * 1000 + 55)
    sc = [flagged(rng, k, c.seed, k % 5 > 1) for k in range(c.pick(250, 2500))]
    mg = [flag_trace(s, rs) for s, rs in c.harness("cycle", sc, stall=150, tasks=True)]
    for k in range(0, len(mg), 1500):
        c.validate("CycleTrace", mg[k:k + 1500], "multigrid as a smoother", heap="8g")
    c.cov["multigrid_as_smoother"] = {"chains": len(mg), "calls": sum(len(e["runs"]) for t in mg for e in t["events"][:-1])}
    c.finish()
