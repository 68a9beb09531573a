"""C10: coarsening of meshes."""
import random
import meshgen
import meshtrace


def run(c):
    rng = random.Random(c.seed * 1000 + 10)
    c.model("MeshModel", "MeshModel.cfg", env={"OUT": "/dev/null"})
    if not c.quick:
        c.model("MeshModel", "MeshModelBig.cfg", env={"OUT": "/dev/null"})
    sc = []
    for k in range(c.pick(240, 3000)):
        sc.append(meshgen.chain(rng, 1, rng.choice([["crs"], ["crs", "crs"], ["crs", "crs", "crs"]]), k, idle=0))
    for k in range(c.pick(700, 8000)):
        idle = int(rng.random() < 0.6)
        sc.append(meshgen.chain(rng, rng.choice([2, 3, 4, 4, 5, 5, 6]), rng.choice([["crs"], ["crs"], ["crs", "crs"], ["crs", "crs", "crs"], ["ctr", "crs"]]), k, idle=idle))
    for k in range(c.pick(60, 500)):
        idle = int(rng.random() < 0.6)
        sc.append(meshgen.chain(rng, rng.choice([1, 2, 3, 4, 5]), ["crs"] * rng.choice([1, 2, 3]), k, idle=idle, big=True))
    for s in sc:
        s["nodal"] = 0
        s.pop("send", None)
    res = c.harness("mesh", sc, stall=150)
    tr = [meshtrace.trace(s, rs) for s, rs in res]
    c.validate("MeshTrace", tr, "coarsening", env={"PROPERTY": "C10"})
    c.cov["chains"] = {k: sum(1 for t in tr if t["key"] == k) for k in sorted({t["key"] for t in tr})}
    c.cov["algorithms"] = {a: sum(1 for t in tr for o in t["scen"]["steps"] if o.get("alg") == a) for a in ("spw", "mis")}
    c.samples = [{"chain": t["key"], "np": t["scen"]["np"], "vertices": len(t["pat"]), "edges": len(t["edges"])} for t in tr[::max(1, len(tr) // 5)]]
    c.assumptions = ["agglomeration of H1 meshes (the same maps carry every problem class); edge weights are positive",
                     "vertices that are isolated or tied to the ground may be dropped, as the options say"]
    c.finish()
