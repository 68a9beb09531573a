import random
import ngsv


def own(pat, r):
    return [i for i, p in enumerate(pat) if r in p]


def run(s, env):
    r, np_, pat = env.rank, env.np, s["pat"]
    mine = own(pat, r)
    dps = [[q for q in pat[i] if q != r] for i in mine]
    via = s["via"]
    if via == "pds":
        e = ngsv.eqc_from_pds(ngsv.make_pds(dps, 1, True), bool(s["cutunion"]), -1, None)
    elif via == "maxnd":     # only the first unknowns: others are appended behind
        extra = s["extra"]
        emine = own(extra, r)
        edps = [[q for q in extra[i] if q != r] for i in emine]
        e = ngsv.eqc_from_pds(ngsv.make_pds(dps + edps, 1, True), bool(s["cutunion"]), len(dps), None)
    elif via == "select":
        full, sel = s["full"], s["sel"]
        fmine = own(full, r)
        fdps = [[q for q in full[i] if q != r] for i in fmine]
        e = ngsv.eqc_from_pds(ngsv.make_pds(fdps, 1, True), bool(s["cutunion"]), -1, [sel[i] for i in fmine])
    elif via == "table":
        rows = []
        for d in dps:
            if d not in rows:
                rows.append(d)
        if mine and [] not in rows:
            rows.append([])
        # every rank lists its rows in an order of its own
        random.Random(s.get("shuffle", 0) * 64 + r).shuffle(rows)
        e = ngsv.eqc_from_table(rows, bool(s["cutunion"]), bool(s["idle"]))
    elif via == "mems":
        alld = sorted({q for d in dps for q in d})
        mems = []
        for i in mine:
            m = sorted(pat[i])
            # only one of the members needs to know
            d = [q for q in m if q != r]      # rows are the distant members
            if len(m) > 1 and m[s["know"][i] % len(m)] == r and d not in mems:
                mems.append(d)
        e = ngsv.eqc_from_mems(alld, mems, bool(s["cutunion"]))
    o = e.info()
    o = {k: ([int(x) for x in v] if isinstance(v, list) and v and not isinstance(v[0], list) else v) for k, v in o.items()}
    o["own"] = [i + 1 for i in mine]
    o["cls"] = [e.find(d) for d in dps]
    o["part"] = e.partition(o["cls"])
    return o
