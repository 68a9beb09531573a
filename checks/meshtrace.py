"""Traces for MeshTrace.tla from the records of scen_mesh."""


def trace(s, rs):
    t = {"id": s["sid"], "key": s["key"], "scen": s, "pat": s["pat"], "edges": [[a + 1, b + 1] for a, b, _ in s["edges"]], "nodal": s["nodal"], "idle": s["idle"],
         "vg": [r["vg"] for r in rs], "listed": [r["listed"] for r in rs], "esort": [r["esort"] for r in rs], "econ": [r["econ"] for r in rs]}
    st = lambda k: [r["stages"][k] for r in rs]
    ev = [{"op": "build", "d": st(0)}]
    for k, o in enumerate(s["steps"]):
        sp = [r["steps"][k] for r in rs]
        e = {"op": o["kind"], "d": st(k), "c": st(k + 1), "s": sp}
        if o["kind"] == "crs":
            e["prev"] = [r["steps"][k - 1] for r in rs] if k else []
            e["free"] = s.get("free", []) if k == 0 else []
        else:
            # status the data had when it was redistributed
            for r, x in zip(rs, sp):
                if "none" not in x:
                    x["metis"] = o.get("metis", 0)
                    d = r["stages"][k]["data"]
                    x["vst"], x["est"] = (0, 0) if o["distr"] else (1, 1) if o["cum"] else (d["vst"], d["est"])
        ev.append(e)
    if "send" in s:
        a, b = s["send"]
        ev.append({"op": "sent", "from": rs[a]["sent"], "to": rs[b]["sent"]})
    ev.append({"op": "end", "ranks": [{q: r[q] for q in ("open", "stray")} for r in rs]})
    t["events"] = ev
    return t
