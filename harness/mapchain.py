"""builds the levels of a scenario on a rank"""
import ngsv
from scen_exchange import h


def S(v):
    return " ".join(repr(float(x)) for x in v)


def nums(seed, ids, bs, salt, r=77):
    return [0.5 * (h(seed, salt, u, b, r) % 21 - 10) for u in ids for b in range(bs)]


def own(L, r):
    return sorted((u for u in range(L["n"]) if r in L["pat"][u]), key=lambda u: L["key"][u])


class Chain:
    def __init__(self, s, env, elements=None):
        from scen_smooth import Elements
        self.s, self.env = s, env
        r = self.rank = env.rank
        self.par = s["np"] > 1
        L = s["levels"]
        self.own = [own(l, r) if r in l["act"] else [] for l in L]
        self.act = [int(r in l["act"]) for l in L]
        self.ud, self.comm = [], []
        c = ngsv.world_comm() if self.par else None
        for k, l in enumerate(L):
            if k and s["steps"][k - 1]["kind"] == "ctr" and c is not None:
                prev = L[k - 1]["act"]
                c = ngsv.sub_comm(c, [prev.index(q) for q in l["act"]])
                if not self.act[k]:
                    c = None
            self.comm.append(c)
            if not self.act[k]:
                self.ud.append(ngsv.udofs_none())
            elif self.par:
                self.ud.append(ngsv.udofs(c, [[l["act"].index(q) for q in l["pat"][u] if q != r] for u in self.own[k]], l["bs"]))
            else:
                self.ud.append(ngsv.udofs_serial(len(self.own[k]), l["bs"]))
        self.nlev = 1 + sum(self.act[k] for k in range(len(L) - 1))
        self.steps = []
        for k, t in enumerate(s["steps"]):
            if not self.act[k]:
                break
            self.steps.append(self.step(k, t))
        self.dm = ngsv.dofmap(self.steps, bool(s.get("prepend")), not s.get("lazy"))
        l0 = L[0]
        el = Elements(s["mseed"], r, self.own[0], l0["bs"], (), s.get("grp", 1))
        self.A, self.dense0 = el.spm(), el.dense()

    def step(self, k, t):
        f, c = self.s["levels"][k], self.s["levels"][k + 1]
        if t["kind"] == "prol":
            pos = {u: i for i, u in enumerate(self.own[k + 1])}
            cols, vals = [], []
            for u in self.own[k]:
                row = sorted((pos[cc], v) for cc, v in t["P"][u])
                cols.append([x for x, v in row])
                vals.append([v for x, v in row])
            self.P = ngsv.make_spm(len(self.own[k + 1]), f["bs"], c["bs"], cols, vals)
            if t.get("dyn"):
                fo, co = list(range(len(self.own[k]) + 1)), list(range(len(self.own[k + 1]) + 1))
                return ngsv.dynprol(self.P, self.ud[k], self.ud[k + 1], fo, co)
            PT = ngsv.transpose_spm(self.P) if t.get("pt") else None
            st = ngsv.prolmap(self.P, PT, self.ud[k], self.ud[k + 1])
            ngsv.step_finalize(st)
            return st
        prev = f["act"]
        g = next(x for x in t["groups"] if self.rank in x)
        maps = []
        if g[0] == self.rank:
            pos = {u: i for i, u in enumerate(self.own[k + 1])}
            maps = [[pos[u] for u in own(f, q)] for q in g]
        return ngsv.ctrmap(self.ud[k], self.ud[k + 1], [prev.index(q) for q in g], maps, f["bs"])

    def swap(self, a):
        """levels a -> a+1 -> a+2 by a redistribution and a prolongation: exchange the two"""
        import copy
        t = self.s["steps"]
        c, p = self.step(a, t[a]), self.step(a + 1, t[a + 1]) if self.act[a + 1] else None
        if self.s.get("setupfirst"):
            ngsv.setup_mpi(c)
        newp = ngsv.step_pullback(c, p)
        ngsv.step_finalize(newp)
        ngsv.setup_mpi(c)
        st = ngsv.step_single([newp, c])
        ngsv.step_finalize(st)
        self.keep = (newp, c, p)
        return st

    def have(self, l):
        return bool(self.act[l])

    def vec(self, l, seed, st, salt):
        L = self.s["levels"][l]
        v = ngsv.udofs_vec(self.ud[l])
        ngsv.set_vec(v, nums(seed, self.own[l], L["bs"], salt, self.rank if st == 0 else 77), st if self.par else -1)
        return v

    def get(self, v):
        if v is None:
            return "", -1
        return S(ngsv.get_vec(v)), (ngsv.vec_stat(v) if self.par else 1)
