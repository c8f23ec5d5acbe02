"""Structural shrinking of a failing test: fewer operations, instances and ranks, smaller grids, plainer tilings, options, data and schedules."""
import time
from .gen import *

DATAOPS = {"compute", "remaps", "steps", "remap", "only1d"}


def executable(c):
    """would this case be a legal history (apart from the request it expects to be refused)?"""
    st = {}
    for i, o in enumerate(c.ops):
        if i == c.expect:
            return True
        n = o[0]
        if n == "mark":
            continue
        k = o[1]
        ob = c.objs[k]
        fft = ob["kind"] in (FFT3, FFT2)
        s = st.setdefault(k, dict(s="none", mem=1, ro=0, buf=False, last=None, raw=False))
        if n == "create":
            if s["s"] not in ("none", "dead"):
                return False
            st[k] = dict(s="new", mem=1, ro=0, buf=False, last=None, raw=False)
            continue
        if s["s"] in ("none", "dead"):
            return False
        if n == "failalloc":
            if i + 1 >= len(c.ops) or c.ops[i + 1][0] not in ("setup", "tune", "compute") or c.ops[i + 1][1] != k:
                return False
        elif n == "set":
            if o[2] == "memory" and s["s"] == "new":
                s["mem"] = o[3]
            if o[2] == "remaponly":
                s["ro"] = o[3]
        elif n in ("setup", "tune", "setuplike"):
            if s["s"] != "new":
                return False
            if n == "setuplike" and st.get(o[2], {}).get("s") != "up":
                return False
            s["s"] = "up"
            if not fft or s["mem"]:
                s["buf"] = True
        elif n == "setupmem":
            if s["s"] != "up" or s["mem"]:
                return False
            s["buf"] = True
        elif n in DATAOPS:
            if s["s"] != "up" or (not s["buf"] and n != "only1d"):
                return False
            if n == "steps" and o[2] == -1 and same_layout(ob):
                return False
            if n == "remap" or n == "only1d":
                s["last"] = None
                continue
            moves = n in ("remaps", "steps") or s["ro"]
            if o[4] == -1:
                if s["last"] != -o[2] or (s["raw"] and not moves):
                    return False
            elif o[4] == 99:
                if not moves:
                    return False
                s["raw"] = True
            else:
                s["raw"] = False
            s["last"] = o[2] if n != "steps" else None
        elif n == "destroy":
            s["s"] = "dead"
    return True


def clamp(b, d, n):
    lo, hi = b[d]
    lo, hi = min(lo, n), min(hi, n - 1)
    if lo > hi + 1:
        lo = hi + 1
    x = list(b)
    x[d] = (lo, hi)
    return x


def slabs(dims, p, d):
    return [[(k * dims[e] // p, (k + 1) * dims[e] // p - 1) if e == d else (0, dims[e] - 1) for e in range(len(dims))] for k in range(p)]


def calm(c):
    return dict(policy=5, sendmode=0, eager=64, deliver=0, rootsync=0, clock=c.sched["clock"], seed=1, cseed=c.sched["cseed"])


def drop_op(t, i):
    u = t.__class__(t.cfg, [c.clone() for c in t.cases], t.meta)
    for c in u.cases:
        if i == c.expect:
            return None
        del c.ops[i]
        if c.expect > i:
            c.expect -= 1
    return u


def drop_obj(t, k):
    u = t.__class__(t.cfg, [c.clone() for c in t.cases], t.meta)
    for c in u.cases:
        if c.expect >= 0 and c.ops[c.expect][1] == k:
            return None
        e = c.ops[c.expect] if c.expect >= 0 else None
        c.ops = [o for o in c.ops if o[0] == "mark" or (o[1] != k and not (o[0] == "setuplike" and o[2] == k))]
        if e is not None:
            c.expect = c.ops.index(e)
        # keep numbering: the instance stays declared but unused
    return u


def each(t, f):
    u = t.__class__(t.cfg, [c.clone() for c in t.cases], t.meta)
    ok = False
    for c in u.cases:
        ok = bool(f(c)) or ok
    return u if ok else None


def used(c):
    return {o[1] for o in c.ops if o[0] != "mark"}


def compact(c):
    """declarations of instances that no operation uses any more"""
    keep = sorted(used(c) | {o[2] for o in c.ops if o[0] == "setuplike"})
    if not keep or len(keep) == len(c.objs):
        return False
    new = {k: i for i, k in enumerate(keep)}
    c.objs = [c.objs[k] for k in keep]
    for o in c.ops:
        if o[0] != "mark":
            o[1] = new[o[1]]
        if o[0] == "setuplike":
            o[2] = new[o[2]]
    return True


def candidates(P, t):
    c0 = t.cases[0]
    indexed = bool(t.meta)          # meta refers to operation numbers: keep the operation list
    if len(t.cases) > 2:
        for k in range(len(t.cases) - 1, 0, -1):
            yield t.__class__(t.cfg, [c for j, c in enumerate(t.cases) if j != k], t.meta)
    if not indexed:
        for k in sorted(used(c0)):
            if len(used(c0)) > 1:
                yield drop_obj(t, k)
        yield each(t, compact)
        for i in range(len(c0.ops) - 1, -1, -1):
            yield drop_op(t, i)
    if hasattr(P, "reduce"):
        yield from P.reduce(t)

    def sched_calm(c):
        n = calm(c)
        if all(c.sched.get(k) == v for k, v in n.items()):
            return False
        c.sched = n
        return True
    yield each(t, sched_calm)
    for key, v in (("policy", 5), ("sendmode", 0), ("deliver", 0), ("rootsync", 0)):
        def one(c, key=key, v=v):
            if c.sched[key] == v:
                return False
            c.sched[key] = v
            return True
        yield each(t, one)
    # fewer ranks, with plain tilings
    if len(c0.comms) == 1 and c0.expect < 0:
        for p in (1, 2, 3, 4, 6):
            if p < c0.np:
                for din, dout in ((-1, -1), (0, -1), (-1, 0), (0, 0), (1, 0), (0, 1)):
                    def fewer(c, p=p, din=din, dout=dout):
                        c.np = p
                        c.comms = [list(range(p))]
                        for o in c.objs:
                            nd = len(o["dims"])
                            o["tin"], o["tout"] = slabs(o["dims"], p, din % nd), slabs(o["dims"], p, dout % nd)
                        return True
                    yield each(t, fewer)
        # a rank that owns nothing anywhere can go
        for k in range(c0.np - 1, -1, -1):
            if c0.np > 1 and all(box_size(o["tin"][k]) == 0 and box_size(o["tout"][k]) == 0 for o in c0.objs):
                def gone(c, k=k):
                    c.np -= 1
                    c.comms = [list(range(c.np))]
                    for o in c.objs:
                        del o["tin"][k], o["tout"][k]
                    return True
                yield each(t, gone)
    elif len(c0.comms) > 1 and c0.expect < 0:
        def world(c):
            ch = False
            for o in c.objs:
                if o["comm"] != 0:
                    o["comm"] = 0
                    o["tin"], o["tout"] = slabs(o["dims"], c.np, len(o["dims"]) - 1), slabs(o["dims"], c.np, 0)
                    ch = True
            c.comms = c.comms[:1]
            return ch
        yield each(t, world)
    if c0.expect < 0:
        for k in sorted(used(c0)):
            for d in range(len(c0.objs[k]["dims"])):
                n = c0.objs[k]["dims"][d]
                if n > 5000:
                    continue
                fft = c0.objs[k]["kind"] < 2
                for m in ([x for x in (2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 16, 32, 64) if x < n] if fft else [x for x in (1, 2, 3, 4, 6, 8) if x < n]):
                    def smaller(c, k=k, d=d, m=m):
                        for q in (range(len(c.objs)) if t.meta else [k]):
                            o = c.objs[q]
                            if len(o["dims"]) <= d or (t.meta and o["dims"] != c0.objs[k]["dims"]):
                                continue
                            if q != k and o is c.objs[k]:
                                continue
                            o["tin"] = [clamp(b, d, m) for b in o["tin"]]
                            o["tout"] = [clamp(b, d, m) for b in o["tout"]]
                        for q in (range(len(c.objs)) if t.meta else [k]):
                            o = c.objs[q]
                            if len(o["dims"]) > d and (q == k or (t.meta and o["dims"] == c0.objs[k]["dims"])):
                                o["dims"][d] = m
                        return True
                    yield each(t, smaller)
            if not t.meta:
                o0 = c0.objs[k]
                q = len(c0.comms[o0["comm"]])
                for side in ("tin", "tout"):
                    for d in range(len(o0["dims"])):
                        s = slabs(o0["dims"], q, d)
                        if o0[side] != s:
                            def plain(c, k=k, side=side, s=s):
                                c.objs[k][side] = [list(b) for b in s]
                                return True
                            yield each(t, plain)
                if o0["permute"]:
                    def unperm(c, k=k):
                        c.objs[k]["permute"] = 0
                        return True
                    yield each(t, unperm)
                if o0["kind"] > 1 and o0["nqty"] > 1:
                    def nq(c, k=k):
                        c.objs[k]["nqty"] = 1
                        return True
                    yield each(t, nq)
                if o0["api"] and o0["api"] == 1:
                    def cpp(c, k=k):
                        c.objs[k]["api"] = 0
                        return True
                    yield each(t, cpp)
    if not t.meta:
        for i, o in enumerate(c0.ops):
            if i == c0.expect:
                continue
            if o[0] in DATAOPS:
                if o[3] != 0:
                    def inplace(c, i=i):
                        c.ops[i][3] = 0
                        return True
                    yield each(t, inplace)
                if o[4] not in (0, 99, -1):
                    def rnd(c, i=i):
                        c.ops[i][4] = 0
                        return True
                    yield each(t, rnd)


def cost(t):
    n = 0
    for c in t.cases:
        n += 1000 * len(c.ops) + 500 * c.np + (0 if c.sched["policy"] == 5 and c.sched["sendmode"] == 0 else 100) + 200 * len(c.objs) + len(c.text("x"))
        for o in c.objs:
            n += sum(o["dims"]) + 20 * o["permute"] + 20 * o["nqty"] + 30 * o["api"]
            for side in ("tin", "tout"):
                p = len(o[side])
                sl = [d for d in range(len(o["dims"])) if o[side] == slabs(o["dims"], p, d)]
                n += -300 + len(o["dims"]) - max(sl) if sl else 0
        for o in c.ops:
            if o[0] in DATAOPS:
                n += (5 if o[3] else 0) + (5 if o[4] not in (0, 99, -1) else 0)
    return n


def shrink(P, test, bad, fn, seconds):
    """greedy; a candidate is kept if it still fails in the same way"""
    end = time.time() + seconds
    kind = bad[0][0]
    best = test
    progress = True
    while progress and time.time() < end:
        progress = False
        batch = []

        def flush():
            nonlocal best, bad
            if not batch:
                return False
            try:
                rs = fn(batch)
            except Exception:
                rs = [[] for _ in batch]
            for u, b in zip(batch, rs):
                if b and any(x[0] == kind for x in b) and not any(x[0] == "badcase" for x in b):
                    best, bad = u, [x for x in b if x[0] == kind] + [x for x in b if x[0] != kind]
                    return True
            return False
        for u in candidates(P, best):
            if u is None or cost(u) >= cost(best) or not all(executable(c) for c in u.cases):
                continue
            batch.append(u)
            if len(batch) >= 12 or time.time() > end:
                if flush():
                    progress = True
                    batch = []
                    break
                batch = []
                if time.time() > end:
                    break
        else:
            if flush():
                progress = True
    return best, bad
