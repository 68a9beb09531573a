"""block-compressed matrices: conversion and products"""
import ngsv
from scen_lin import mk, toint


def run(s, env):
    a = mk(s["A"])
    how = s["how"]
    if how == "auto":
        d = ngsv.to_dyn(a)
    elif how == "cols":
        d = ngsv.dyn_make_cols(a, s["coloff"])
    else:
        d = ngsv.dyn_make(a, s["rowoff"], s["coloff"], s["how"] == "symm")
    info = ngsv.dyn_info(d)
    hh, ww = d.height, d.width
    rec = {"blocks": [{"rows": b["rows"], "cols": b["cols"], "vals": [toint(v) for v in b["vals"]]} for b in ngsv.dyn_blocks(d)],
           "rowoff": info["rowoff"], "coloff": info["coloff"], "nze": info["nze"], "height": hh, "width": ww}
    ev = []
    for o in s["ops"]:
        x = ngsv.serial_vec(len(o["x"]), 1, [float(v) for v in o["x"]])
        y = ngsv.serial_vec(len(o["y0"]), 1, [float(v) for v in o["y0"]])
        ngsv.apply(d, o["v"], float(o["s"]), x, y)
        ev.append({"y": [toint(v) for v in ngsv.get_vec(y)], "x1": [toint(v) for v in ngsv.get_vec(x)]})
    rec["ev"] = ev
    return rec
