import ngsv
from scen_classes import own


def build(s, env):
    r, pat = env.rank, s["pat"]
    mine = own(pat, r)
    dps = [[q for q in pat[i] if q != r] for i in mine]
    pds = None
    if s["via"] == "pds":
        pds = ngsv.make_pds(dps, 1, True)
        e = ngsv.eqc_from_pds(pds, bool(s["cutunion"]), -1, None)
    else:
        rows = []
        for d in dps:
            if d not in rows:
                rows.append(d)
        if mine and [] not in rows:
            rows.append([])
        e = ngsv.eqc_from_table(rows, bool(s["cutunion"]), False)
    return mine, dps, pds, e


def h(*a):
    """small deterministic pseudo-random number"""
    x = 1234567
    for v in a:
        x = (x * 1103515245 + 12345 + v * 7919) % 2147483648
    return x >> 7


def rowdata(seed, r, members, k, maxlen, op):
    m = sum(1 << q for q in members)
    if op == "scatter_eqc_data":
        n = h(seed, m, 5) % (maxlen + 1)       # same length on all members
    else:
        n = h(seed, r, m, 3) % (maxlen + 1)
    return [h(seed, r, m, k, i) % 1000 for i in range(n)]


def run(s, env):
    r = env.rank
    mine, dps, pds, e = build(s, env)
    info = e.info()
    cls = info["dps"]
    ev = []
    for o in s["ops"]:
        op, sd, ml = o["op"], o["seed"], o.get("maxlen", 3)
        rows = [rowdata(sd, r, c + [r], 0, ml, op) for c in cls]
        rec = {"in": rows}
        if op in ("reduce_concat", "reduce_empty", "scatter_table", "scatter_eqc_data"):
            rec["out"] = getattr(e, op)(rows)
        elif op == "scatter_eqc_array":
            vals = [h(sd, r, sum(1 << q for q in c)) % 1000 for c in cls]
            rec = {"in": vals, "out": e.scatter_eqc_array(vals)}
        elif op == "gather":
            rec["out"], rec["ind"] = e.gather(rows)
        elif op == "gather2":
            first = [[0] * len(x) for x in rows]
            rec["out"] = e.gather2(first, rows)
        elif op == "reduce_rows":
            # several rows per class, the number is the same on all members; local rows anywhere in between
            order = []
            for k, c in enumerate(cls):
                m = sum(1 << q for q in c + [r])
                for j in range(h(sd, m, 11) % 3):
                    order.append((h(sd, m, 13) % 50 if c else h(sd, r, j, 17) % 50, m, k, j))
            # classes in an order that is the same on all members; rows of one class keep their order
            order.sort()
            rec = {"in": [rowdata(sd, r, cls[k] + [r], 1 + j, ml, op) for _, _, k, j in order], "rcls": [k for _, _, k, j in order]}
            rec["out"] = e.reduce_rows(rec["rcls"], rec["in"])
        elif op in ("allreduce_dofs", "allreduce_dofs_order"):
            vals = [1 + h(sd, r, u) % 9 for u in mine]
            rec = {"in": vals, "out": getattr(ngsv, op)(pds, vals)}
        elif op.startswith("exchange"):
            nb = info["all"]
            var = int(op[-1])
            send = [[h(sd, r, q, i) % 1000 for i in range(1 + (h(sd, min(r, q), max(r, q)) % ml if var == 0 else h(sd, r, q) % ml))] for q in nb]
            rec = {"in": send, "nb": nb, "out": ngsv.exchange_pairwise(nb, send, var)}
        elif op == "send_table":
            t = [[h(sd, i, j) % 1000 for j in range(h(sd, i) % 4)] for i in range(o["rows"])]
            rec = {"in": t if r == o["from"] else [], "out": []}
            if r == o["from"]:
                ngsv.send_table(t, o["to"])
            elif r == o["to"]:
                rec["out"] = ngsv.recv_table(o["from"])
        elif op == "bcast_table":
            t = [[h(sd, i, j) % 1000 for j in range(h(sd, i) % 4)] for i in range(o["rows"])]
            rec = {"in": t if r == o["from"] else []}
            rec["out"] = ngsv.bcast_table(rec["in"], o["from"])
        ev.append(rec)
    return {"ev": ev, "dps": cls, "own": [i + 1 for i in mine]}
