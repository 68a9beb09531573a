"""C11: redistribution of meshes, numbers attached to them, meshes in messages."""
import json
import random
import meshgen
import meshtrace


def generated(c, cfg):
    f = "%s/%s.json" % (c.dir, cfg)
    c.model("MeshModel", cfg + ".cfg", env={"OUT": f}, workers=1)
    return [(x["pat"], e, g) for x in json.load(open(f)) for e in x["edges"] for g in x["groups"]]


def run(c):
    rng = random.Random(c.seed * 1000 + 11)
    c.model("MeshModel", "MeshModel.cfg", env={"OUT": "/dev/null"})
    gen = generated(c, "MeshGen")
    sc = [meshgen.generated(g, k) for k, g in enumerate(gen)][c.seed % c.pick(4, 1)::c.pick(4, 1)]
    if not c.quick:
        gb = generated(c, "MeshGenBig")
        sc += [meshgen.generated(g, k) for k, g in enumerate(gb)][::5]
    c.cov["spec_generated"] = len(sc)
    for k in range(c.pick(700, 8000)):
        idle = int(rng.random() < 0.6)
        sc.append(meshgen.chain(rng, rng.choice([2, 3, 4, 4, 5, 5, 6]), rng.choice([[], ["ctr"], ["ctr"], ["ctr", "ctr"], ["crs", "ctr"], ["ctr", "crs", "ctr"]]), k, idle=idle))
    for k in range(c.pick(40, 400)):
        idle = int(rng.random() < 0.6)
        sc.append(meshgen.chain(rng, rng.choice([3, 4, 5, 6]), rng.choice([["ctr"], ["ctr", "ctr"]]), k, idle=idle, big=True))
    res = c.harness("mesh", sc, stall=150)
    tr = [meshtrace.trace(s, rs) for s, rs in res]
    c.validate("MeshTrace", tr, "mesh", env={"PROPERTY": "C11"})
    c.cov["chains"] = {k: sum(1 for t in tr if t["key"] == k) for k in sorted({t["key"] for t in tr})}
    c.cov["sent"] = sum(1 for t in tr if "send" in t["scen"])
    c.samples = [{"chain": t["key"], "np": t["scen"]["np"], "vertices": len(t["pat"]), "edges": len(t["edges"]), "groups": [o["groups"] for o in t["scen"]["steps"] if "groups" in o]} for t in tr[::max(1, len(tr) // 5)]]
    c.assumptions = ["at least two ranks before and after (a single rank is never redistributed by the library)", "groups are sorted, by their first rank; rank 0 is a group of its own where it is idle"]
    c.finish()
