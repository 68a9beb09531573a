"""C14: option objects (behaviours of the specification), option sets, and what preconditioners make of them."""
import json, random, re
from vlib import die

TYPES = {"bool": ["0", "1"], "xbool": ["0", "1"], "int": ["0", "3", "7", "12"], "double": ["0", "0.125", "2.5", "0.75"], "string": ["", "a", "bc", "x y"], "enum": ["MIN", "GEOM", "HARM", "ALG"]}
NAMES = {"MIN": "min", "GEOM": "geom", "HARM": "harm", "ALG": "alg", "?": "nonsense"}


def behaviours(c, cfg, n):
    rc, out = c.tlc("OptionsModel", cfg, simulate="num=%d" % n, workers=1, args=["-depth", "12", "-seed", str(c.seed)])
    res = [json.loads(json.loads(m)) for m in re.findall(r'<<"BEHAVIOUR", (".*")>>', out)]
    if len(res) < n // 2:
        die("OptionsModel produced no behaviours: " + out[-1500:])
    t = re.search(r'<<"TABLE", (".*")>>', out)
    return res, json.loads(json.loads(t.group(1)))


def flags(t, k, u, names=None):
    """the user's words u (values) about key k as flags"""
    f = []
    nm = lambda v: (names or NAMES).get(v, "nonsense") if t == "enum" else v
    if u["hasgen"]:
        f.append([k, {"bool": "def", "xbool": "def", "int": "num", "double": "num"}.get(t, "str"), [nm(u["gen"])]])
    if u["haslist"]:
        f.append([k + "_spec", "strs" if t in ("enum", "string") else "nums", [nm(v) for v in u["list"]]])
    return f


def objects(rng, b, t):
    vals = TYPES[t]
    maybe = t == "xbool" and rng.random() < 0.6
    mv = lambda v, made=False: "?" if v == "?" else "m" if maybe and made and v == "0" else vals[int(v)]
    ops = []
    for o in b:
        o = json.loads(json.dumps(o))
        if o["op"] == "or" and t != "bool":
            break
        if o["op"] in ("make", "default"):
            o["gen"] = mv(o["gen"], True)
            if o["op"] == "make":
                o["list"] = [mv(v, True) for v in o["list"]]
        if o["op"] == "read":
            u = o["u"]
            u["gen"] = mv(u["gen"])
            u["list"] = [mv(v) for v in u["list"]]
            if t != "enum":
                u["hasgen"] = u["hasgen"] and u["gen"] != "?"
                u["list"] = [rng.choice(vals) if v == "?" else v for v in u["list"]]
            if t in ("int", "double", "bool", "xbool", "string", "enum") and not u["list"] and rng.random() < 0.5:
                u["haslist"] = False
            o["flags"] = flags(t, "ngs_amg_opt", u)
        ops.append(o)
    return {"np": 1, "key": "object/" + t, "kind": "objects", "type": t, "ops": ops}


def value(rng, r, unknown=True):
    t = r["t"]
    if t in ("bool", "xbool"):
        return rng.choice("01")
    if t == "int":
        return str(rng.randint(1, 40))
    if t == "double":
        return "%g" % (rng.randint(1, 24) / 8)
    if t == "string":
        return rng.choice(["a", "bcd", "file.out"])
    return "?" if unknown and rng.random() < 0.1 else rng.choice([e[1] for e in r["e"]])


def user(rng, r, p=0.5, unknown=True, n=4):
    u = {"hasgen": rng.random() < p, "gen": "?", "haslist": r["kind"] == "spec" and rng.random() < p, "list": []}
    if u["hasgen"]:
        u["gen"] = value(rng, r, unknown)
    if u["haslist"]:
        u["list"] = [value(rng, r, unknown) for _ in range(rng.randint(1, n))]
    return u


def sets(rng, name, table):
    defaults, us, fl = [], [], []
    dens = rng.choice([0.1, 0.5, 0.9])
    seen = set()
    for r in table:
        if r["f"] in seen:
            continue
        rows = [x for x in table if x["f"] == r["f"]]
        seen.add(r["f"])
        reset = r["f"] in ("mg_cycle", "clev", "energy", "log_level_pc", "log_file", "log_file_pc")     # these start from a fixed default
        if r["kind"] != "off" and not reset and rng.random() < 0.6:
            defaults.append([r["f"], value(rng, r, False), [value(rng, r, False) for _ in range(rng.randint(0, 3))] if r["kind"] == "spec" else []])
        r = rng.choice(rows)
        u = user(rng, r, dens)
        if u["hasgen"] or u["haslist"]:
            us.append({"k": r["k"], "u": u})
            fl += flags(r["t"], "ngs_amg_" + r["k"], u, {e[1]: e[0] for e in r["e"]})
    rng.shuffle(fl)
    return {"np": 1, "key": "set/" + name, "kind": "sets", "set": name, "defaults": defaults, "flags": fl, "user": us}


LOUD = {"agg_print_aggs", "agg_print_vmap", "spw_print_params", "spw_print_summ", "log_file", "log_file_pc", "do_test", "test_levels", "test_2level", "test_smoothers"}


def kwargs(us, table):
    kw = {}
    row = {r["k"]: r for r in table}
    for x in us:
        r, u = row[x["k"]], x["u"]
        nm = {e[1]: e[0] for e in r["e"]}
        conv = lambda v: bool(int(v)) if r["t"] in ("bool", "xbool") else int(v) if r["t"] == "int" else float(v) if r["t"] == "double" else nm.get(v, "nonsense") if r["t"] == "enum" else v
        if u["hasgen"]:
            kw["ngs_amg_" + r["k"]] = conv(u["gen"])
        if u["haslist"]:
            kw["ngs_amg_" + r["k"] + "_spec"] = [int(conv(v)) if r["t"] in ("bool", "xbool") else conv(v) for v in u["list"]]
    return kw


def pc(rng, table):
    us = []
    done = set()
    for r in rng.sample(table, len(table)):
        if r["k"] not in LOUD and r["f"] not in done and r["k"] not in ("max_levels", "smooth_lo_only"):
            u = user(rng, r, rng.choice([0.2, 0.6]))
            if u["hasgen"] or u["haslist"]:
                done.add(r["f"])
                us.append({"k": r["k"], "u": u})
    us.append({"k": "max_levels", "u": {"hasgen": True, "gen": "2", "haslist": False, "list": []}})
    return {"np": 1, "key": "pc", "kind": "pc", "space": rng.choice(["h1", "elast"]), "dim": rng.choice([2, 3]), "n": 2, "user": us, "kw": kwargs(us, table)}


def levels(rng, table):
    types = ["gs", "jacobi", "bgs"]
    kw, want = {}, [{"type": "gs", "n": 1, "symm": False} for _ in range(6)]
    def opt(key, vals, field, default):
        g = default
        if rng.random() < 0.6:
            g = rng.choice(vals); kw["ngs_amg_" + key] = g
        l = []
        if rng.random() < 0.7:
            l = [rng.choice(vals) for _ in range(rng.randint(1, 3))]
            kw["ngs_amg_" + key + "_spec"] = [int(v) if isinstance(v, bool) else v for v in l]
        for k in range(6):
            want[k][field] = l[k] if k < len(l) else g
    opt("sm_type", types, "type", "gs")
    opt("sm_steps", [1, 2, 3], "n", 1)
    opt("sm_symm", [True, False], "symm", False)
    space = rng.choice(["h1", "h1", "elast"])
    dim = rng.choice([2, 2, 3]) if space == "h1" else 2      # smoothers for blocks of six are not compiled here
    return {"np": 1, "key": "levels", "kind": "levels", "space": space, "dim": dim, "n": rng.randint(5, 9) if dim == 2 else 3, "types": types, "kw": kw, "want": want}


def cycles(rng):
    return {"np": 1, "key": "cycles", "kind": "cycles", "space": rng.choice(["h1", "elast"]), "dim": 2, "n": rng.randint(6, 10),
            "cycles": rng.sample([(c, l) for c in ("", "V", "W", "BS") for l in ("", "inv", "none")], 4)}


def trace(s, r):
    t = {"id": s["sid"], "key": s["key"], "scen": s}
    if s["kind"] == "objects":
        t["events"] = [dict(o, **e) for o, e in zip(s["ops"], r["events"])]
    elif s["kind"] in ("sets", "pc"):
        t["events"] = [{"op": "set" if s["kind"] == "sets" else "pc", "set": s.get("set", ""), "user": s["user"], "before": r["before"], "after": r["after"]}]
    else:
        t["events"] = [dict(e, op="level") for e in r["events"]]
    return t


def run(c):
    rng = random.Random(c.seed * 1000 + 14)
    c.model("OptionsModel", args=["-deadlock"])
    bb, table = behaviours(c, "OptionsGenB.cfg", c.pick(500, 5000))
    bv, _ = behaviours(c, "OptionsGenV.cfg", c.pick(500, 5000))
    sc = [objects(rng, b, rng.choice(["bool", "bool", "xbool"])) for b in bb] + [objects(rng, b, rng.choice(["int", "double", "string", "enum", "enum"])) for b in bv]
    for k in range(c.pick(600, 6000)):
        n = ("vertex", "pc", "stokes")[k % 3]
        sc.append(sets(rng, n, table[n]))
    sc += [pc(rng, table["all"]) for _ in range(c.pick(300, 3000))]
    sc += [levels(rng, table["all"]) for _ in range(c.pick(120, 1200))] + [cycles(rng) for _ in range(c.pick(24, 240))]
    res = c.harness("opts", sc, stall=150)
    c.validate("OptionsTrace", [trace(s, rs[0]) for s, rs in res], "options")
    c.cov["spec_generated_behaviours"] = len(bb) + len(bv)
    c.cov["options_in_the_table"] = sum(len(table[n]) for n in ("vertex", "stokes"))
    c.cov["levels_where_another_choice_would_differ"] = sum(rs[0].get("differ", 0) for s, rs in res)
    c.samples = [{"scenario": s} for s, rs in (res[:1] + res[-1:])]
    c.assumptions = ["levels and cycles: compared with a preconditioner that has that choice on all levels, on structured meshes"]
    c.finish()
