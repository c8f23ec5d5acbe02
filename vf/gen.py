"""Generators: grids, tilings, options, schedules and operation histories.  Every choice comes from one Random."""
import math

SMOOTH = sorted({2 ** a * 3 ** b * 5 ** c for a in range(14) for b in range(9) for c in range(7) if 2 <= 2 ** a * 3 ** b * 5 ** c <= 8192})
LONG = sorted({2 ** a * 3 ** b * 5 ** c for a in range(18) for b in range(11) for c in range(8) if 8192 < 2 ** a * 3 ** b * 5 ** c <= 131072})
SMALL = [n for n in SMOOTH if n <= 32]
FFT3, FFT2, RM3, RM2 = 0, 1, 2, 3
CPP, CAPI, FAPI = 0, 1, 2


def nd_of(kind):
    return 3 if kind in (FFT3, RM3) else 2


def pick(r, weighted):
    t = sum(w for _, w in weighted)
    x = r.random() * t
    for v, w in weighted:
        x -= w
        if x < 0:
            return v
    return weighted[-1][0]


# ------------------------------------------------------------------ tilings
def box_size(b):
    n = 1
    for lo, hi in b:
        n *= hi - lo + 1
    return n


def factorizations(p, k):
    if k == 1:
        return [(p,)]
    out = []
    for a in range(1, p + 1):
        if p % a == 0:
            out += [(a,) + t for t in factorizations(p // a, k - 1)]
    return out


def cuts(r, n, p, mode):
    if mode == "uniform":
        return [i * n // p for i in range(p + 1)]
    if mode == "random":
        return [0] + sorted(r.randint(0, n) for _ in range(p - 1)) + [n]
    if mode == "skew":
        c = [0] * (p + 1)
        c[p] = n
        a = r.randrange(p)
        for i in range(1, p):
            c[i] = min(i, n) if i <= a else max(n - (p - i), 0)
        c.sort()
        return c
    raise ValueError(mode)


def grid_tiling(r, dims, p, fac=None, mode=None):
    nd = len(dims)
    if fac is None:
        fac = r.choice(factorizations(p, nd))
    cs = [cuts(r, dims[d], fac[d], mode or r.choice(["uniform", "uniform", "random", "skew"])) for d in range(nd)]
    order = list(range(nd))
    if r.random() < 0.3:
        r.shuffle(order)
    boxes = []
    for m in range(p):
        idx = [0] * nd
        q = m
        for d in order:
            idx[d] = q % fac[d]
            q //= fac[d]
        boxes.append([(cs[d][idx[d]], cs[d][idx[d] + 1] - 1) for d in range(nd)])
    return boxes


def bisect_tiling(r, dims, p):
    def rec(box, n):
        if n == 1:
            return [box]
        a = r.randint(1, n - 1)
        d = r.randrange(len(dims))
        lo, hi = box[d]
        c = r.randint(lo, hi + 1) if r.random() < 0.7 else lo + (hi + 1 - lo) * a // n
        b1, b2 = list(box), list(box)
        b1[d] = (lo, c - 1)
        b2[d] = (c, hi)
        return rec(b1, a) + rec(b2, n - a)
    return rec([(0, n - 1) for n in dims], p)


def empty_box(r, dims):
    nd = len(dims)
    e = [False] * nd
    e[r.randrange(nd)] = True
    for d in range(nd):
        if r.random() < 0.25:
            e[d] = True
    b = []
    for d in range(nd):
        n = dims[d]
        if e[d]:
            lo = r.choice([0, n, r.randint(0, n)])
            b.append((lo, lo - 1))
        elif r.random() < 0.5:
            b.append((0, n - 1))
        else:
            lo = r.randint(0, n - 1)
            b.append((lo, r.randint(lo, n - 1)))
    return b


def few_tiling(r, dims, p):
    k = r.randint(1, p)
    t = grid_tiling(r, dims, k) + [empty_box(r, dims) for _ in range(p - k)]
    r.shuffle(t)
    return t


def pencil_tiling(r, dims, p, d):
    """everyone owns all of dimension d"""
    nd = len(dims)
    fac = r.choice([f for f in factorizations(p, nd) if f[d] == 1])
    return grid_tiling(r, dims, p, fac)


def split_one(r, t, dims):
    """near miss: one rank's tile is shared with a rank that owned nothing (or two tiles trade a slice)"""
    t = [list(b) for b in t]
    big = [i for i in range(len(t)) if box_size(t[i]) > 1]
    emp = [i for i in range(len(t)) if box_size(t[i]) == 0]
    if big and emp:
        i, j = r.choice(big), r.choice(emp)
        ds = [d for d in range(len(dims)) if t[i][d][1] > t[i][d][0]]
        d = r.choice(ds)
        lo, hi = t[i][d]
        c = r.randint(lo + 1, hi)
        t[j] = list(t[i])
        t[i][d] = (lo, c - 1)
        t[j][d] = (c, hi)
    return t


def tiling(r, dims, p):
    nd = len(dims)
    s = pick(r, [("grid", 30), ("bisect", 22), ("few", 10), ("pencil", 22), ("near", 8), ("one", 3), ("lib", 5)])
    if s == "grid":
        t = grid_tiling(r, dims, p)
    elif s == "bisect":
        t = bisect_tiling(r, dims, p)
    elif s == "few":
        t = few_tiling(r, dims, p)
    elif s == "pencil":
        t = pencil_tiling(r, dims, p, r.randrange(nd))
    elif s == "near":
        d = r.randrange(nd)
        k = r.randint(max(1, p - 2), p)
        t = pencil_tiling(r, dims, k, d)
        for _ in range(p - k):
            b = [(0, n - 1) for n in dims]
            e = r.choice([x for x in range(nd) if x != d])
            b[e] = (0, -1)
            t.append(b)
        if r.random() < 0.6:
            t = split_one(r, t, dims)
    elif s == "one":
        t = [[(0, n - 1) for n in dims]] + [empty_box(r, dims) for _ in range(p - 1)]
        r.shuffle(t)
    else:
        t = grid_tiling(r, dims, p, None, "uniform")
    if r.random() < 0.3:
        r.shuffle(t)
    return [list(map(tuple, b)) for b in t], s


def tiling_pair(r, dims, p, permute, last):
    """input and output tilings with the relations the library special-cases made likely"""
    tin, s1 = tiling(r, dims, p)
    rel = pick(r, [("free", 60), ("same", 14), ("swap", 6), ("slowout", 14), ("fastin", 6)])
    if rel == "same":
        tout, s2 = [list(b) for b in tin], s1
    elif rel == "swap":
        tout, s2 = [list(b) for b in tin], s1
        if p > 1:
            i, j = r.sample(range(p), 2)
            tout[i], tout[j] = tout[j], tout[i]
    elif rel == "slowout":
        tout, s2 = pencil_tiling(r, dims, p, len(dims) - 1), "slowpencil"
        if r.random() < 0.3:
            tout = split_one(r, tout, dims)
    else:
        if rel == "fastin":
            tin, s1 = pencil_tiling(r, dims, p, 0), "fastpencil"
            if r.random() < 0.3:
                tin = split_one(r, tin, dims)
        tout, s2 = tiling(r, dims, p)
    return tin, tout, (s1, s2, rel)


# ------------------------------------------------------------------ sizes
def dims3(r, cap=1500):
    while True:
        m = r.random()
        if m < 0.75:
            d = [r.choice([n for n in SMALL if n <= 16]) for _ in range(3)]
        elif m < 0.93:
            d = [r.choice(SMALL) for _ in range(3)]
        else:
            d = [r.choice([2, 3, 4]), r.choice([2, 3, 5]), r.choice([n for n in SMOOTH if n <= 250])]
            r.shuffle(d)
        if d[0] * d[1] * d[2] <= cap:
            return d


def dims2(r, cap=1500):
    while True:
        m = r.random()
        if m < 0.6:
            d = [r.choice(SMALL) for _ in range(2)]
        elif m < 0.9:
            d = [r.choice([n for n in SMOOTH if n <= 128]) for _ in range(2)]
        else:
            d = [r.choice([2, 3, 4, 5]), r.choice([n for n in SMOOTH if n <= 500])]
            r.shuffle(d)
        if d[0] * d[1] <= cap:
            return d


NPMAX = 40
NPFAR, FAR = 140, 0.006            # rarely: more processes than fit a byte or a machine word's bits


def nprocs(r, top=12):
    x = r.random()
    if x < 0.02:
        return r.randint(top, NPMAX)
    if x < 0.02 + FAR:
        return r.randint(NPMAX, NPFAR)
    return pick(r, [(n, w) for n, w in [(1, 5), (2, 12), (3, 13), (4, 14), (5, 9), (6, 13), (7, 5), (8, 9), (9, 4), (10, 3), (11, 2), (12, 6), (16, 2), (18, 1), (20, 1), (24, 1)] if n <= top])


def anydims(r, nd):
    """index space of a bare remap: not restricted to 2,3,5 factors"""
    while True:
        d = [r.randint(1, 14) for _ in range(nd)]
        if r.random() < 0.15:
            d[r.randrange(nd)] = r.randint(1, 60)
        n = 1
        for x in d:
            n *= x
        if n <= 1200:
            break
    if r.random() < 0.015:
        d = big(r, nd, list(range(1, 200)))
        if r.random() < 0.5:
            n = int(math.exp(r.uniform(math.log(5000), math.log(140000))))
            d = [r.randint(1, 2 if n < 70000 else 1) for _ in range(nd - 1)]
            d.insert(0 if r.random() < 0.6 else r.randrange(nd), n)
    return d


def big(r, nd, lens, lo=4000, hi=60000):
    """a large index space: long in one dimension, or in all of them"""
    longest = max(lens)
    while True:
        if r.random() < 0.3:
            d = [r.choice([n for n in lens if n <= 6]) for _ in range(nd - 1)] + [r.choice([n for n in lens if n >= longest // 8])]
        elif nd == 3:
            d = [r.choice([n for n in lens if n <= 64]) for _ in range(3)]
        else:
            d = [r.choice([n for n in lens if n <= 300]) for _ in range(2)]
        r.shuffle(d)
        n = 1
        for x in d:
            n *= x
        if lo <= n <= hi:
            return d


def sched(r, style="mix"):
    if style == "calm":
        return dict(policy=5, sendmode=0, eager=64, deliver=0, rootsync=0, clock=0, seed=1, cseed=1)
    return dict(policy=pick(r, [(0, 35), (1, 10), (2, 10), (3, 15), (4, 20), (5, 10)]), sendmode=pick(r, [(0, 25), (1, 35), (2, 25), (3, 15)]),
                eager=r.choice([0, 16, 64, 256, 4096]), deliver=r.choice([0, 1, 2, 2]), rootsync=r.choice([0, 0, 1, 2]), clock=r.choice([0, 0, 1, 2, 5, 6]),
                seed=r.randrange(1, 1 << 30), cseed=r.randrange(1, 1 << 30))


# ------------------------------------------------------------------ cases
class Case:
    def __init__(self, np, sched):
        self.np, self.sched, self.comms, self.objs, self.ops, self.expect = np, sched, [list(range(np))], [], [], -1
        self.tags = []

    def comm(self, ranks):
        self.comms.append(list(ranks))
        return len(self.comms) - 1

    def obj(self, kind, comm, api, dims, tin, tout, permute, nqty=2, mem=1):
        self.objs.append(dict(kind=kind, comm=comm, api=api, dims=list(dims), tin=[list(map(tuple, b)) for b in tin], tout=[list(map(tuple, b)) for b in tout], permute=permute, nqty=nqty, mem=mem))
        return len(self.objs) - 1

    def op(self, *a):
        self.ops.append(list(a))
        return len(self.ops) - 1

    def clone(self):
        c = Case(self.np, dict(self.sched))
        c.comms = [list(x) for x in self.comms]
        c.objs = [dict(o, dims=list(o["dims"]), tin=[list(b) for b in o["tin"]], tout=[list(b) for b in o["tout"]]) for o in self.objs]
        c.ops = [list(o) for o in self.ops]
        c.expect, c.tags = self.expect, list(self.tags)
        return c

    def text(self, cid):
        s = self.sched
        L = ["CASE %s" % cid, "NP %d" % self.np,
             "SCHED %d %d %d %d %d %d %d %d %d" % (s["policy"], s["sendmode"], s["eager"], s["deliver"], s["rootsync"], s["clock"], s["seed"], s["cseed"], s.get("maxsteps", 20000000))]
        for c in self.comms[1:]:
            L.append("COMM " + " ".join(map(str, c)))
        for o in self.objs:
            d = list(o["dims"]) + [1] * (3 - len(o["dims"]))
            L.append("OBJ %d %d %d %d %d %d %d %d %d" % (o["kind"], o["comm"], o["api"], d[0], d[1], d[2], o["nqty"], o["permute"], o["mem"]))
        for i, o in enumerate(self.objs):
            for k in range(len(self.comms[o["comm"]])):
                b = [x for lohi in o["tin"][k] for x in lohi]
                b += [0] * (6 - len(b))
                e = [x for lohi in o["tout"][k] for x in lohi]
                e += [0] * (6 - len(e))
                L.append("BOX %d %d %s" % (i, k, " ".join(map(str, b + e))))
        for o in self.ops:
            L.append("OP " + " ".join(map(str, o)))
        if self.expect >= 0:
            L.append("EXPECT %d" % self.expect)
        L.append("END")
        return "\n".join(L) + "\n"

    def to_json(self):
        return dict(np=self.np, sched=self.sched, comms=self.comms, objs=self.objs, ops=self.ops, expect=self.expect, tags=self.tags)

    @staticmethod
    def from_json(d):
        c = Case(d["np"], d["sched"])
        c.comms, c.ops, c.expect, c.tags = d["comms"], d["ops"], d["expect"], d.get("tags", [])
        c.objs = [dict(o, tin=[[tuple(x) for x in b] for b in o["tin"]], tout=[[tuple(x) for x in b] for b in o["tout"]]) for o in d["objs"]]
        return c


# ------------------------------------------------------------------ pieces used by the property profiles
def fft_geometry(r, kind, p, cap=1500):
    nd = nd_of(kind)
    dims = dims3(r, cap) if nd == 3 else dims2(r, cap)
    if cap >= 1500 and r.random() < 0.012:
        dims = big(r, nd, SMOOTH, hi=40000)
        if r.random() < 0.2:
            dims = [2] * (nd - 1) + [r.choice([n for n in LONG if n <= (20000 if nd == 3 else 60000)])]
            r.shuffle(dims)
    permute = r.randrange(nd)
    tin, tout, tag = tiling_pair(r, dims, p, permute, nd - 1)
    return dims, tin, tout, permute, tag


def remap_geometry(r, kind, p):
    nd = nd_of(kind)
    dims = anydims(r, nd)
    permute = r.randrange(nd)
    tin, tout, tag = tiling_pair(r, dims, p, permute, nd - 1)
    return dims, tin, tout, permute, tag


def same_layout(o):
    return o["permute"] == 0 and o["tin"] == o["tout"]


def rand_opts(r):
    return dict(collective=r.choice([0, 1, 2]), exchange=r.choice([0, 1]), pack=r.choice([0, 1, 2]), memory=pick(r, [(1, 3), (0, 2)]))


def begin_fft(r, c, o, opts=None, via="setup", tune=None, late=False):
    """create, set options, setup (or tune), and supply buffers when asked to"""
    opts = rand_opts(r) if opts is None else opts
    c.op("create", o, 0)
    ks = list(opts)
    r.shuffle(ks)
    for k in ks:
        if k == "exchange" or opts[k] is not None:
            if r.random() < 0.08:
                c.op("set", o, k, r.choice([0, 1] if k in ("exchange", "memory") else [0, 1, 2]))     # the last value counts
            c.op("set", o, k, opts[k])
    # scale and remaponly may be set at any time, so also before setup
    if r.random() < 0.2:
        c.op("set", o, "scale", pick(r, [(0, 7), (1, 3)]))
        pre = pick(r, [("scale", 6), (None, 4)])
    else:
        pre = None
    ro = r.random() < 0.05
    if ro:
        c.op("set", o, "remaponly", 1)
    if via == "setup":
        c.op("setup", o)
    else:
        t = tune or dict(flag=r.choice([0, 1, -1]), niter=r.choice([1, 2, 3]), tmax=r.choice([0.0, 0.0, 0.02]), tflag=r.choice([0, 0, 1]), cseed=r.randrange(1 << 20))
        c.op("tune", o, t["flag"], t["niter"], repr(t["tmax"]), t["tflag"], t["cseed"])
    if late and r.random() < 0.15:
        c.op("set", o, "memory", r.choice([0, 1]))      # documented to take effect only at setup
    if not opts.get("memory", 1):
        c.op("setupmem", o)
    if pre:
        c.op("set", o, "scale", 1)
    if ro:
        c.op("set", o, "remaponly", 0)
    return opts


def begin_remap(r, c, o, opts=None):
    opts = dict(collective=r.choice([0, 1]), pack=r.choice([0, 1, 2])) if opts is None else opts
    c.op("create", o, 0)
    for k in opts:
        if r.random() < 0.08:
            c.op("set", o, k, r.choice([0, 1] if k == "collective" else [0, 1, 2]))
        c.op("set", o, k, opts[k])
    c.op("setup", o)
    return opts


def nqty(r, dims, usual):
    """datums per element: now and then many"""
    q = usual
    if r.random() < 0.02:
        q = r.choice([r.randint(9, 40), r.randint(16, 300), r.choice([16, 32, 64, 100, 128, 255, 256, 257])])
        n = 1
        for d in dims:
            n *= d
        q = max(1, min(q, 60000 // n))
    return q


DATA = [(0, 50), (1, 8), (2, 6), (3, 4), (4, 6), (5, 8), (6, 6), (7, 6), (8, 3), (9, 3)]


def datakind(r):
    return pick(r, DATA)


def subcomm(r, np):
    k = r.randint(1, np)
    m = r.sample(range(np), k)
    if r.random() < 0.4:
        m.sort()
    return m


def embed(r, cases):
    """the same cases on a sub-communicator (any rank order) of a larger world, whose other processes take no part"""
    p = cases[0].np
    n = p + r.choice([1, 1, 2, 3])
    if p < 40 < n:
        n = 40
    if n == p or any(c.np != p or len(c.comms) != 1 for c in cases):
        return
    m = r.sample(range(n), p)
    if r.random() < 0.3:
        m.sort()
    for c in cases:
        c.np = n
        c.comms = [list(range(n)), list(m)]
        for o in c.objs:
            o["comm"] = 1
        c.tags.append("sub-communicator")
