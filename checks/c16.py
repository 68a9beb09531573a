"""C16: sparse matrix algebra and array helpers."""
import itertools, json, random

SIZES = [(1, 1), (2, 2), (3, 3), (1, 2), (2, 1), (1, 3), (3, 1), (2, 3), (3, 2), (1, 6), (6, 1), (3, 6), (6, 3), (6, 6), (4, 4), (5, 5)]
PRODS = [(1, 1, 1)] * 4 + [(2, 2, 2), (3, 3, 3), (6, 6, 6)] + [t for a, b in [(1, 2), (1, 3), (2, 3), (1, 4), (1, 6), (3, 6)]
         for t in [(a, a, b), (a, b, b), (b, a, a), (b, b, a), (a, b, a), (b, a, b)]]


def rmat(rng, h, w, bh, bw, dens=None, zeros=True):
    dens = rng.choice([0.15, 0.3, 0.5, 0.8, 1.0]) if dens is None else dens
    cols = [[j for j in range(w) if rng.random() < dens] for _ in range(h)]
    def ent():
        return [rng.choice([0, 1, -1, 2, -3, 5, -7]) if zeros else rng.choice([1, -1, 2, -3, 5, -7]) for _ in range(bh * bw)]
    return {"h": h, "w": w, "bh": bh, "bw": bw, "cols": cols, "vals": [[ent() for _ in r] for r in cols]}


def wide(rng, h, bh, bw):
    """few entries in many columns, many of them equal modulo powers of two"""
    base = [rng.randint(0, 127) for _ in range(3)]
    pool = [b + 128 * rng.choice([0, 1, 8, 16, 32]) for b in base for _ in range(4)]
    w = max(pool) + 1
    m = rmat(rng, h, w, bh, bw, 0.0)
    m["cols"] = [sorted(set(rng.sample(pool, 6))) for _ in range(h)]
    m["vals"] = [[[rng.choice([1, -1, 2, -3, 5]) for _ in range(bh * bw)] for _ in r] for r in m["cols"]]
    return m


def dim(rng, b):
    return rng.choice([1, 1, 2, 3]) if b > 2 else rng.choice([0, 1, 2, 3, 4, 5, 6]) if b == 1 else rng.choice([1, 2, 3, 4])


def dense(m):
    d = [[0] * (m["w"] * m["bw"]) for _ in range(m["h"] * m["bh"])]
    return d


def rexpr(rng, h, w, b, depth):
    """expression of h x w entries of size b x b"""
    k = rng.choice(["leaf", "T", "mul", "sum", "embed", "block"]) if depth > 0 else "leaf"
    if k == "T":
        return {"k": "T", "a": rexpr(rng, w, h, b, depth - 1)}
    if k == "mul":
        n = rng.choice([1, 2, 3])
        if h == w and b == 1 and rng.random() < 0.2:
            i = {"k": "id", "n": h * b, "nn": h}
            e = rexpr(rng, h, w, b, depth - 1)
            return {"k": "mul", "a": i, "b": e} if rng.random() < 0.5 else {"k": "mul", "a": e, "b": i}
        return {"k": "mul", "a": rexpr(rng, h, n, b, depth - 1), "b": rexpr(rng, n, w, b, depth - 1)}
    if k == "sum":
        if h == w and b == 1 and rng.random() < 0.3:
            i = {"k": "id", "n": h * b, "nn": h}
            e = rexpr(rng, h, w, b, depth - 1)
            return {"k": "sum", "a": i, "b": e} if rng.random() < 0.5 else {"k": "sum", "a": e, "b": i}
        return {"k": "sum", "a": rexpr(rng, h, w, b, depth - 1), "b": rexpr(rng, h, w, b, depth - 1)}
    if k == "embed" and h > 1 and b == 1:
        na = rng.randint(1, h)
        oo = rng.randint(0, h - na)
        return {"k": "embed", "a": rexpr(rng, na, w, b, 0), "off": oo * b, "h": h * b, "oo": oo, "hh": h, "na": na}
    if k == "block" and h > 1 and w > 1:
        h1, w1 = rng.randint(1, h - 1), rng.randint(1, w - 1)
        bl = [[rexpr(rng, x, y, b, 0) for y in (w1, w - w1)] for x in (h1, h - h1)]
        miss = rng.choice([None, None, (0, 0), (0, 1), (1, 0), (1, 1)])
        if miss:
            bl[miss[0]][miss[1]] = {"k": "none"}
        return {"k": "block", "hs": [h1 * b, (h - h1) * b], "ws": [w1 * b, (w - w1) * b], "b": bl}
    return {"k": "leaf", "m": rmat(rng, h, w, b, b)}


def matops(rng, n):
    out = []
    for _ in range(n):
        op = rng.choice(["mm"] * 4 + ["to_sparse"] * 4 + ["transpose", "transpose_spm", "compress", "compress", "restrict_blocks", "restrict_keep", "restrict_tm", "mm_update", "apply"])
        o = {"op": op}
        if op == "mm":
            a, b, c = rng.choice(PRODS)
            h, k, w = dim(rng, a), dim(rng, b), dim(rng, c)
            o["a"], o["b"] = rmat(rng, h, k, a, b), rmat(rng, k, w, b, c)
            z = rng.random()
            if a * b * c == 1 and z < 0.5:     # many rows to merge
                h, k, w = rng.choice([1, 2]), rng.choice([15, 16, 17, 20, 33]), rng.choice([10, 30])
                o["a"], o["b"] = rmat(rng, h, k, 1, 1, 0.9), rmat(rng, k, w, 1, 1, 0.2)
            elif z < 0.35:                     # many columns
                o["a"], o["b"] = rmat(rng, 2, 4, a, b), wide(rng, 4, b, c)
        elif op == "to_sparse":
            b = rng.choice([1, 1, 1, 2, 3])
            h, w = rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 4])
            if rng.random() < 0.5:
                w = h
            x = rexpr(rng, h, w, b, 2)
            while x["k"] == "leaf":
                x = rexpr(rng, h, w, b, 2)
            o["x"] = x
        elif op in ("transpose", "transpose_spm"):
            a, b = rng.choice(SIZES)
            o["a"] = rmat(rng, dim(rng, a), dim(rng, b), a, b)
        elif op == "compress":
            a, b = rng.choice([(1, 1), (1, 1), (2, 2), (3, 3)])
            o["a"] = rmat(rng, dim(rng, a), dim(rng, b), a, b)
            o["t2"] = rng.choice([0, 1, 3, 5])
        elif op == "restrict_blocks":
            a = rng.choice([1, 1, 2, 3])
            h, w = dim(rng, a), dim(rng, a)
            o["a"] = rmat(rng, h, w, a, a)
            own = [rng.choice([-1, 0, 1, 2]) for _ in range(h)]
            o["rb"] = [[i for i in range(h) if own[i] == k] for k in range(3)]
            o["cb"] = [[j for j in range(w) if rng.random() < 0.5] for k in range(3)]
        elif op == "restrict_keep":
            a, b = rng.choice([(1, 1), (2, 2), (3, 3), (1, 2), (2, 3), (3, 6), (6, 6), (1, 3)])
            n, m = dim(rng, a), dim(rng, b)
            o["a"], o["p"] = rmat(rng, n, n, a, a), rmat(rng, n, m, a, b)
            o["pt"] = rmat(rng, m, n, b, a)
        elif op == "restrict_tm":
            a, b = rng.choice([(1, 1), (2, 2), (3, 3), (1, 2), (2, 3), (3, 6), (6, 6), (1, 3)])
            n, m = dim(rng, a), dim(rng, b)
            o["a"], o["p"] = rmat(rng, n, n, a, a), rmat(rng, n, m, a, b)
        elif op == "mm_update":
            h, k, w = dim(rng, 1), dim(rng, 1), dim(rng, 1)
            o["a0"], o["b0"] = rmat(rng, h, k, 1, 1), rmat(rng, k, w, 1, 1)
            if rng.random() < 0.4:
                o["a0"], o["b0"] = rmat(rng, 2, 4, 1, 1), wide(rng, 4, 1, 1)
            re = lambda m: dict(m, vals=[[[rng.randint(-5, 5)] for _ in r] for r in m["cols"]])
            o["a"], o["b"] = re(o["a0"]), re(o["b0"])
        elif op == "apply":
            a, b = rng.choice(SIZES)
            if a == b:
                a = b = 1
            a, b = rng.choice([(1, 1), (2, 2), (3, 3), (1, 2), (2, 3), (3, 6)])
            m = rmat(rng, max(1, dim(rng, a)), max(1, dim(rng, b)), a, b)
            o["a"], o["v"], o["s"] = m, rng.randint(0, 3), rng.choice([1, -1, 2, -3])
            H, W = m["h"] * a, m["w"] * b
            nx, ny = (W, H) if o["v"] < 2 else (H, W)
            o["bx"], o["by"] = (b, a) if o["v"] < 2 else (a, b)
            o["x"] = [rng.randint(-4, 4) for _ in range(nx)]
            o["y0"] = [rng.randint(-4, 4) for _ in range(ny)]
        out.append(o)
    return out


def rset(rng, n, top):
    return sorted(rng.sample(range(top), min(n, top)))


def arrops(rng, n):
    out = []
    names = ["a_find", "a_find_cmp", "a_mergepos", "a_insert", "a_insert_nodups", "a_insert_unique", "a_remove", "a_merge", "a_merge2", "a_merge_lh",
             "a_pos", "a_isect", "a_isect_it", "a_isect_empty", "a_anotb", "a_minus", "a_abc", "a_abc3", "a_partition", "a_perm", "a_perm_keep", "a_perm_buf",
             "a_inv", "a_reduce", "a_lexless"]
    for _ in range(n):
        op = rng.choice(names)
        top = rng.choice([4, 8, 20, 60])
        na = rng.choice([0, 1, 2, 3, 5, 6, 7, 8, 13, 30])
        o = {"op": op, "a": rset(rng, na, top), "x": rng.randint(-1, top), "b": rset(rng, rng.choice([0, 1, 2, 4, 7, 12]), top)}
        if op in ("a_mergepos", "a_insert") and rng.random() < 0.4:
            o["a"] = sorted(rng.choice(range(top)) for _ in range(na))       # repetitions allowed
        if op == "a_remove":
            o["a"] = [rng.randint(0, 9) for _ in range(max(1, na))]
            o["x"] = rng.randrange(len(o["a"]))
        elif op == "a_merge":
            o["t"] = [rset(rng, rng.choice([0, 1, 2, 4, 9]), top) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        elif op == "a_pos":
            o["b"] = rset(rng, rng.choice([1, 3, 8, 12]), top)
            o["a"] = [x for x in o["b"] if rng.random() < 0.5]
        elif op == "a_partition":
            o["b"] = rset(rng, rng.choice([1, 3, 8, 12]), top)
            o["a"] = [x for x in o["b"] if rng.random() < 0.5]
            o["bs"] = rng.choice([1, 2, 3])
        elif op in ("a_perm", "a_perm_keep", "a_perm_buf", "a_inv"):
            p = list(range(na))
            rng.shuffle(p)
            o["b"] = p
            o["a"] = p if op == "a_inv" else [rng.randint(0, 99) for _ in range(na)]
        elif op == "a_reduce":
            w = rng.choice([0, 1, 3])
            o["t"] = [[rng.randint(-9, 9) for _ in range(w)] for _ in range(rng.choice([0, 1, 2, 4]))]
            o["x"] = rng.randint(0, 2)
        elif op == "a_lexless":
            o["a"] = [rng.randint(0, 2) for _ in range(rng.randint(0, 4))]
            o["b"] = [rng.randint(0, 2) for _ in range(rng.randint(0, 4))]
        out.append(o)
    return out


def setpairs():
    """all pairs of subsets of a small set: the two-list helpers, completely in this bound"""
    subs = [list(x) for k in range(6) for x in itertools.combinations(range(5), k)]
    ops = []
    for a in subs:
        for b in subs:
            for op in ("a_merge2", "a_merge_lh", "a_isect", "a_isect_it", "a_isect_empty", "a_anotb", "a_minus", "a_abc", "a_abc3"):
                ops.append({"op": op, "a": a, "b": b})
    for a in subs:
        for x in range(-1, 6):
            for op in ("a_find", "a_mergepos", "a_insert_nodups", "a_insert_unique"):
                ops.append({"op": op, "a": a, "x": x})
    return [ops[i:i + 200] for i in range(0, len(ops), 200)]


def run(c):
    rng = random.Random(c.seed * 1000 + 16)
    sc = [{"np": 1, "key": "algebra", "ops": matops(rng, 12)} for _ in range(c.pick(160, 2500))]
    ar = [{"np": 1, "key": "arrays", "ops": arrops(rng, 100)} for _ in range(c.pick(40, 600))]
    ar += [{"np": 1, "key": "arrays", "ops": ops} for ops in setpairs()[::c.pick(3, 1)]]
    res = c.harness("lin", sc + ar, tasks=True)
    tm, ta, cnt = [], [], {}
    for s, (r,) in res:
        ev = [dict(o, **x) for o, x in zip(s["ops"], r["ev"])]
        for e in ev:
            cnt[e["op"]] = cnt.get(e["op"], 0) + 1
        (tm if s["key"] == "algebra" else ta).append({"id": s["sid"], "key": s["key"], "events": ev})
    c.validate("MatTrace", tm, "matrix algebra")
    c.validate("ArraysTrace", ta, "array helpers")
    c.cov["operations"] = cnt
    c.samples = [{"op": t["events"][0]["op"]} for t in (tm + ta)[::max(1, len(tm + ta) // 4)]]
    c.assumptions = ["matrix entries are small integers, for which double precision arithmetic is exact", "entry sizes and products instantiated by the library"]
    c.finish()
