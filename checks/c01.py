"""C01: classes of shared unknowns."""
import json, random


def rand_pattern(rng, ranks, nu):
    kind = rng.random()
    if kind < 0.5:      # a few member sets, several unknowns each
        sets = [sorted(rng.sample(ranks, rng.choice([1, 1, 2, 2, 2, 3, len(ranks)]) if len(ranks) > 3 else rng.randint(1, len(ranks)))) for _ in range(max(1, nu // 2))]
        return [rng.choice(sets) for _ in range(nu)]
    return [sorted(rng.sample(ranks, rng.randint(1, len(ranks)))) for _ in range(nu)]


def patterns_from_spec(c, cfg):
    f = "%s/pats_%s.json" % (c.dir, cfg)
    c.model("ClassPatterns", cfg + ".cfg", env={"OUT": f}, workers=1)
    return json.load(open(f))


def scenarios(c):
    rng = random.Random(c.seed * 1000 + 1)
    sc = []
    pats = patterns_from_spec(c, "ClassPatterns")
    c.cov["spec_generated_patterns"] = len(pats)
    for p in pats:
        for cu in (0, 1):
            sc.append({"np": 4, "pat": p, "via": "pds", "cutunion": cu})
    if not c.quick:
        for p in patterns_from_spec(c, "ClassPatterns4"):
            for cu in (0, 1):
                sc.append({"np": 5, "pat": p, "via": "pds", "cutunion": cu})
    for k in range(c.pick(240, 3000)):
        np_ = rng.choice([1, 2, 3, 4, 5, 5, 6])
        via = rng.choice(["pds", "maxnd", "select", "table", "table", "mems"])
        ranks = list(range(np_)) if via == "table" or np_ == 1 else list(range(1, np_))
        idle = 0 if 0 in ranks else 1
        if via == "mems" and np_ == 1:
            via = "pds"
        pat = rand_pattern(rng, ranks, rng.randint(1, 9))
        s = {"np": np_, "pat": pat, "via": via, "cutunion": rng.randint(0, 1), "idle": idle}
        if via == "maxnd":
            s["extra"] = rand_pattern(rng, ranks, 4)
        if via == "select":
            extra = rand_pattern(rng, ranks, 4)
            full = [(p, 1) for p in pat] + [(p, 0) for p in extra]
            rng.shuffle(full)
            s["full"], s["sel"] = [p for p, _ in full], [q for _, q in full]
            s["pat"] = [p for p, q in full if q]
        if via == "mems":
            first = {}
            s["know"] = [first.setdefault(tuple(p), rng.randint(0, 5)) for p in pat]
        if rng.random() < 0.3:
            s["delay"], s["dseed"] = 2000, k
        sc.append(s)
    # many classes with many members that differ only in late members
    for k in range(c.pick(24, 300)):
        np_ = rng.choice([6, 7])
        ranks = list(range(np_))
        sets = []
        base = sorted(rng.sample(ranks, np_ - 3))
        for q in ranks:
            if q not in base:
                sets.append(sorted(base + [q]))
        sets += [sorted(rng.sample(ranks, np_ - 2)) for _ in range(3)] + [ranks]
        pat = [rng.choice(sets) for _ in range(10)] + [[rng.choice(ranks)]]
        sc.append({"np": np_, "pat": pat, "via": "table", "cutunion": 0, "idle": 0, "shuffle": k + 1})
    for k, s in enumerate(sc):
        s.setdefault("shuffle", k)
        s["key"] = "via=%s,cu=%d" % (s["via"], s["cutunion"])
    return sc


def run(c):
    c.model("ClassNaming", c.pick("ClassNaming.cfg", "ClassNaming4.cfg"))
    sc = scenarios(c)
    res = c.harness("classes", sc)
    tr = []
    for s, rs in res:
        tr.append({"id": s["sid"], "key": s["key"], "scen": s, "events": [
            {"op": "classes", "np": s["np"], "pat": s["pat"], "cutunion": s["cutunion"], "via": s["via"], "ranks": rs}]})
    c.validate("ClassesTrace", tr, "classes of shared unknowns")
    c.samples = [{"pattern": t["events"][0]["pat"], "via": t["key"]} for t in tr[::max(1, len(tr) // 4)]]
    c.assumptions = ["the sharing pattern handed to the ranks is consistent (a precondition of the constructor)",
                     "rank 0 holds nothing where ParallelDofs are involved (NGS_COMPATIBILITY build)"]
    c.finish(exhaustive_small="all patterns of 3 unknowns over 3 ranks")
