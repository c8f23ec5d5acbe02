"""One profile per property: what is generated, what is checked, what counts as non-trivial."""
from .gen import *

HARD = {"asan", "crash", "deadlock", "mpi", "steps", "timeout", "abort", "refused", "user"}
DEF = ["kd", "kd", "ks", "fd", "fs"]
# with some cases for the MKL and FFTW 2 code paths (stand-in libraries)
WITH1 = DEF * 5 + ["md", "md", "ws", "ws"]
WITH2 = DEF * 5 + ["ms", "ms", "wd", "wd"]


class Test:
    def __init__(self, cfg, cases, meta=None):
        self.cfg, self.cases, self.meta = cfg, cases, meta or {}

    def key(self):
        return self.cfg + "".join(c.text("x") for c in self.cases)

    def to_json(self):
        return dict(cfg=self.cfg, cases=[c.to_json() for c in self.cases], meta=self.meta)

    @staticmethod
    def from_json(d):
        return Test(d["cfg"], [Case.from_json(c) for c in d["cases"]], d.get("meta"))


class Prop:
    id = ""
    configs = DEF
    kinds = set()
    quick, thorough = 2000, 20000
    rule = ""
    technique = ""

    sub = 0.08      # share of the tests that are moved to a sub-communicator

    def gen(self, r, i):
        raise NotImplementedError

    def make(self, r, i):
        t = self.gen(r, i)
        if r.random() < self.sub:
            embed(r, t.cases)
        return t

    def cfg(self, r):
        return r.choice(self.configs)

    def relevant(self, test, k, f):
        """is failure f=(kind, op, rank, msg) of case k a violation of this property?"""
        return f[0] in HARD or f[0] in self.kinds

    def extra(self, test, res):
        return []

    def attribute(self, test, res, bad, run):
        """may run further tests to tell whether a failure is a failure of this property"""
        return bad

    def check(self, test, res):
        out = []
        for k, x in enumerate(res):
            for f in x.F:
                if f[0] == "badcase":
                    out.append(("badcase", f[3]))
                elif self.relevant(test, k, f):
                    out.append((f[0], "%s" % f[3]))
        if not out:
            out = self.extra(test, res)
        return out

    def nontrivial(self, test, res):
        c, x = test.cases[0], res[0]
        return c.np >= 2 and int(x.S.get("msgs", 0)) + int(x.S.get("colls", 0)) > 0 and int(x.S.get("bytes", 0)) > 0

    def labels(self, test, res):
        c = test.cases[0]
        L = ["cfg:" + test.cfg, "np:%d" % c.np]
        L += ["tag:" + t for t in c.tags]
        if int(res[0].S.get("reorder", 0)) > 0:
            L.append("messages overtaken")
        if int(res[0].S.get("syncblocks", 0)) > 0:
            L.append("synchronous send blocked")
        for o in c.objs:
            if any(box_size(b) == 0 for b in o["tin"] + o["tout"]):
                L.append("empty tile")
                break
        return L


def fwd_only(f, test, k):
    return True


# ---------------------------------------------------------------------------------------------- C01 C02
class Forward(Prop):
    kinds = {"fft"}
    kind = FFT3
    rule = ("one case = grid with 5-smooth dimensions (usually up to 1500 points, 1% up to 120000), 1-40 simulated MPI ranks, generated input/output tilings (grids with uneven cuts, recursive bisections, pencils, near misses, empty tiles, shuffled ranks), "
            "permutation, collective/exchange/pack/memory options, in/out of place, data kind, message schedule; each forward result is compared with an independent long-double DFT of the gathered input. "
            "Non-trivial: at least 2 ranks and data was communicated")

    def gen(self, r, i):
        p = nprocs(r, 24 if r.random() < 0.15 else 12)
        c = Case(p, sched(r))
        dims, tin, tout, perm, tag = fft_geometry(r, self.kind, p)
        api = pick(r, [(CPP, 8), (CAPI, 2)])
        o = c.obj(self.kind, 0, api, dims, tin, tout, perm)
        c.tags += ["in-" + tag[0], "out-" + tag[1], "rel-" + tag[2], "perm%d" % perm]
        begin_fft(r, c, o, via="tune" if r.random() < 0.04 else "setup")
        if r.random() < 0.25:
            c.op("set", o, "scale", r.choice([0, 1]))
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            c.op("compute", o, 1, r.choice([0, 1]), datakind(r), r.randrange(1 << 30))
            if r.random() < 0.15:
                c.op("compute", o, -1, r.choice([0, 1]), -1, 0)
        c.op("destroy", o)
        return Test(self.cfg(r), [c])

    def relevant(self, test, k, f):
        if f[0] == "fft":
            return test.cases[k].ops[f[1]][2] == 1
        return f[0] in HARD


class C01(Forward):
    id, kind, quick, thorough = "C01", FFT3, 12000, 150000
    configs = WITH1


class C02(Forward):
    id, kind, quick, thorough = "C02", FFT2, 16000, 200000
    configs = WITH2


# ---------------------------------------------------------------------------------------------- C03 C04
class Backward(Prop):
    kind = FFT3
    rule = ("as C01, for histories of backward transforms: fresh data in the output layout, backward directly after forward on the same array (round trip), scaling toggled between calls; each backward result is compared with an "
            "independent long-double inverse DFT (divided by N exactly when scaling is on). Non-trivial: at least 2 ranks and data was communicated")

    def gen(self, r, i):
        p = nprocs(r, 24 if r.random() < 0.15 else 12)
        c = Case(p, sched(r))
        dims, tin, tout, perm, tag = fft_geometry(r, self.kind, p)
        api = pick(r, [(CPP, 8), (CAPI, 2)])
        o = c.obj(self.kind, 0, api, dims, tin, tout, perm)
        c.tags += ["in-" + tag[0], "out-" + tag[1], "rel-" + tag[2], "perm%d" % perm]
        begin_fft(r, c, o, via="tune" if r.random() < 0.04 else "setup")
        for _ in range(r.choice([1, 2, 2, 3])):
            if r.random() < 0.4:
                c.op("set", o, "scale", r.choice([0, 1]))
            if r.random() < 0.5:
                c.op("compute", o, -1, r.choice([0, 1]), datakind(r), r.randrange(1 << 30))
            else:
                c.op("compute", o, 1, r.choice([0, 1]), datakind(r), r.randrange(1 << 30))
                if r.random() < 0.3:
                    c.op("set", o, "scale", r.choice([0, 1]))
                c.op("compute", o, -1, r.choice([0, 1]), -1, 0)
        c.op("destroy", o)
        return Test(self.cfg(r), [c])

    def relevant(self, test, k, f):
        if f[0] == "fft":
            return True
        return f[0] in HARD

    def attribute(self, test, res, bad, run):
        """a wrong forward result is this property's concern only if it depends on the scale option"""
        c, x = test.cases[0], res[0]
        fails = [f for f in x.F if self.relevant(test, 0, f)]
        if any(f[0] != "fft" or c.ops[f[1]][2] == -1 for f in fails):
            return bad
        vs = []
        for v in (0, 1):
            d = c.clone()
            for o in d.ops:
                if o[0] == "set" and o[2] == "scale":
                    o[3] = v
            k = next(i for i, o in enumerate(d.ops) if o[0] in ("setup", "tune"))
            d.ops.insert(k, ["set", c.ops[k][1], "scale", v])
            vs.append(Test(test.cfg, [d]))
        rs = run(vs)
        fwd = {f[1] for f in fails}
        for y in rs:
            if y is None:
                return []
            still = {f[1] - 1 for f in y[0].F if f[0] == "fft" and f[1] > 0}
            if fwd - still:
                return bad
        return []


class C03(Backward):
    id, kind, quick, thorough = "C03", FFT3, 12000, 150000
    configs = WITH1


class C04(Backward):
    id, kind, quick, thorough = "C04", FFT2, 14000, 175000
    configs = WITH2


# ---------------------------------------------------------------------------------------------- C05 C06
class RemapProp(Prop):
    kinds = {"move"}
    kind = RM3
    configs = ["kd", "kd", "ks"]
    rule = ("one case = index space with arbitrary (also prime, also 1) extents (usually up to 1200 elements, 1% up to 150000), 1-40 ranks, generated input/output tilings, 1-17 (2%: up to 300) datums per element, permutation, packing method, collective or point-to-point, internal or caller memory, "
            "in/out of place, arbitrary bit patterns as data (signed zeros, denormals), several calls per plan; every output datum is compared bit for bit with the source element. Non-trivial: at least 2 ranks and data was communicated")

    def gen(self, r, i):
        p = nprocs(r, 24 if r.random() < 0.15 else 12)
        c = Case(p, sched(r))
        dims, tin, tout, perm, tag = remap_geometry(r, self.kind, p)
        api = pick(r, [(CPP, 8), (CAPI, 2)])
        nq = nqty(r, dims, pick(r, [(1, 30), (2, 30), (3, 20), (4, 6), (5, 5), (8, 4), (r.randint(6, 17), 3)]))
        o = c.obj(self.kind, 0, api, dims, tin, tout, perm, nq, r.choice([0, 1]))
        c.tags += ["in-" + tag[0], "out-" + tag[1], "rel-" + tag[2], "perm%d" % perm, "nqty%d" % nq]
        begin_remap(r, c, o)
        for _ in range(r.choice([1, 1, 2, 3])):
            c.op("remap", o, 1, r.choice([0, 1]), 99, r.randrange(1 << 30))
        c.op("destroy", o)
        return Test(self.cfg(r), [c])


class C05(RemapProp):
    id, kind, quick, thorough = "C05", RM3, 25600, 400000


class C06(RemapProp):
    id, kind, quick, thorough = "C06", RM2, 25600, 400000


# ---------------------------------------------------------------------------------------------- C07
class C07(Prop):
    id, quick, thorough = "C07", 5200, 65000
    kinds = {"fft"}
    rule = ("metamorphic: for one geometry and one input, 4-8 instances that differ only in collective/exchange/pack/memory are run (each in and out of place, both directions); every result must equal the same "
            "reference transform (option-independent) to rounding, and the remaps-only image of the same bits must be bit-identical for all instances. Non-trivial: at least 2 ranks, data communicated, at least 2 different option vectors")

    def gen(self, r, i):
        kind = r.choice([FFT3, FFT3, FFT2])
        p = nprocs(r, 12)
        c = Case(p, sched(r))
        dims, tin, tout, perm, tag = fft_geometry(r, kind, p, 700)
        c.tags += ["in-" + tag[0], "out-" + tag[1], "rel-" + tag[2], "perm%d" % perm]
        allo = [dict(collective=a, exchange=b, pack=q, memory=m) for a in (0, 1, 2) for b in (0, 1) for q in (0, 1, 2) for m in (0, 1)]
        seed = r.randrange(1 << 30)
        dk = datakind(r)
        for opts in r.sample(allo, r.choice([4, 6, 8])):
            o = c.obj(kind, 0, CPP, dims, tin, tout, perm)
            begin_fft(r, c, o, opts)
            c.op("compute", o, 1, r.choice([0, 1]), dk, seed)
            c.op("compute", o, -1, r.choice([0, 1]), dk, seed + 1)
            c.op("remaps", o, 1, r.choice([0, 1]), 99, seed)
            c.op("remaps", o, -1, r.choice([0, 1]), 99, seed)
            c.op("destroy", o)
        return Test(self.cfg(r), [c])

    def relevant(self, test, k, f):
        return f[0] in HARD

    def extra(self, test, res):
        out = []
        c, x = test.cases[0], res[0]
        for d in (1, -1):
            ops = [i for i, o in enumerate(c.ops) if o[0] == "compute" and o[2] == d]
            bad = [f for f in x.F if f[0] == "fft" and f[1] in ops]
            if bad and len({f[1] for f in bad}) < len(ops):      # wrong for every setting is another property's concern
                return [("options", "%s; other option settings give the right result" % bad[0][3])]
        for d in (1, -1):
            ops = [i for i, o in enumerate(c.ops) if o[0] == "remaps" and o[2] == d]
            for rank in range(c.np):
                hs = [x.H.get((i, rank)) for i in ops]
                if any(h != hs[0] for h in hs):
                    out.append(("options", "rank %d: remaps-only results (direction %d) differ between option settings" % (rank, d)))
                    break
        return out


# ---------------------------------------------------------------------------------------------- histories over many instances
def history(r, c, nobj, kinds, allow_sub=True, apis=(CPP,), tunes=0.1, late=True, cap=400, only1d=True, nops=12, destroy=True, fate=0.06):
    """a random interleaving of complete instance life cycles, on the world and on sub-communicators"""
    np = c.np
    state = []
    for _ in range(nobj):
        kind = r.choice(kinds)
        comm = 0
        if allow_sub and r.random() < 0.5:
            comm = c.comm(subcomm(r, np))
        p = len(c.comms[comm])
        api = r.choice(apis)
        if kind in (FFT3, FFT2):
            dims, tin, tout, perm, tag = fft_geometry(r, kind, p, cap)
            o = c.obj(kind, comm, api, dims, tin, tout, perm)
        else:
            dims, tin, tout, perm, tag = remap_geometry(r, kind, p)
            o = c.obj(kind, comm, api, dims, tin, tout, perm, nqty(r, dims, r.choice([1, 2, 3, 5])), r.choice([0, 1]))
        state.append(dict(o=o, st=0, have=False))
    left = nops + 3 * nobj
    while left > 0 or (destroy and any(s["st"] != 2 for s in state)):
        left -= 1
        alive = [s for s in state if s["st"] != 2]
        if not alive:
            break
        s = r.choice(alive)
        o = s["o"]
        ob = c.objs[o]
        fft = ob["kind"] in (FFT3, FFT2)
        if s["st"] == 0:
            if left < -40 or r.random() < 0.03:
                c.op("create", o, 0)
                c.op("destroy", o)
                s["st"] = 2
                continue
            if fft:
                s["opts"] = begin_fft(r, c, o, via="tune" if r.random() < tunes else "setup", late=late)
            else:
                begin_remap(r, c, o)
            s["st"] = 1
            s["layout"] = None
            continue
        if left <= 0 or r.random() < fate:
            c.op("destroy", o)
            s["st"] = 2
            continue
        if late and r.random() < 0.15:
            # documented to have no effect after setup
            k = r.choice(["collective", "exchange", "pack", "memory"] if fft else ["collective", "pack"])
            c.op("set", o, k, r.choice([0, 1] if k in ("exchange", "memory") or (k == "collective" and not fft) else [0, 1, 2]))
            continue
        if not fft:
            c.op("remap", o, 1, r.choice([0, 1]), 99, r.randrange(1 << 30))
            continue
        if s["opts"].get("memory", 1) == 0 and r.random() < 0.03:
            c.op("setupmem", o)                         # other buffers from now on
            continue
        what = pick(r, [("compute", 60), ("scale", 10), ("remaponly", 6), ("remaps", 10), ("steps", 6), ("only1d", 5 if only1d else 0), ("get", 2)])
        if what in ("scale", "remaponly"):
            v = r.choice([0, 1])
            c.op("set", o, what, v)
            if what == "remaponly":
                s["ro"] = v
        elif what == "compute":
            d = r.choice([1, -1])
            chain = s.get("layout") == d and r.random() < 0.5
            dk = -1 if chain else (99 if s.get("ro") else datakind(r))
            c.op("compute", o, d, r.choice([0, 1]), dk, r.randrange(1 << 30))
            s["layout"] = -d if (dk != 99) else None
            if s.get("ro"):
                s["layout"] = None
        elif what == "remaps":
            c.op("remaps", o, r.choice([1, -1]), r.choice([0, 1]), 99, r.randrange(1 << 30))
            s["layout"] = None
        elif what == "steps":
            d = 1 if same_layout(ob) else r.choice([1, -1])
            c.op("steps", o, d, r.choice([0, 1, 2]), 99, r.randrange(1 << 30))
            s["layout"] = None
        elif what == "only1d":
            c.op("only1d", o, r.choice([1, -1]), 0, 0, r.randrange(1 << 30))
            s["layout"] = None
        else:
            c.op("get", o)
    return state


# ---------------------------------------------------------------------------------------------- C08
class C08(Prop):
    id, quick, thorough = "C08", 16000, 200000
    configs = WITH1
    kinds = {"edge", "inmod"}
    rule = ("every array handed to the library (data, send, receive) has exactly the announced size, sits between poisoned guard zones under AddressSanitizer and starts filled with NaNs; inputs of out-of-place calls are compared before/after; library memory is "
            "watched by AddressSanitizer; integer overflow, division by zero and shifts by UBSan. Cases: histories of setup/tune/compute/partial/remap operations over 1-3 instances. Non-trivial: at least 2 ranks and data was communicated")

    def gen(self, r, i):
        p = nprocs(r, 12)
        c = Case(p, sched(r))
        history(r, c, r.choice([1, 1, 2]), [FFT3, FFT2, RM3, RM2], allow_sub=r.random() < 0.3, tunes=0.12, late=False, cap=600, nops=5)
        return Test(self.cfg(r), [c])

    def relevant(self, test, k, f):
        return f[0] in {"asan", "crash", "edge", "inmod"} or (f[0] == "mpi" and ("trunc" in f[3] or "overlap" in f[3])) or (f[0] == "user" and "announced" in f[3])


# ---------------------------------------------------------------------------------------------- C09
class C09(Prop):
    id, quick, thorough = "C09", 2400, 37500
    kinds = {"pending"}
    rule = ("each generated history (several instances, overlapping sub-communicators, tune) is executed under one calm and 4 adversarial schedules of the simulated MPI: random/PCT/run-to-block interleavings, eager, size-limited, random or fully synchronous sends, late or "
            "early delivery, rooted collectives synchronising or not, shuffled completion order of Waitany; all must complete, leave nothing pending, agree on collectives, and produce bit-identical results. "
            "Non-trivial: at least 2 ranks, at least 2 distinct adversarial schedules with scheduling choices, and messages or collectives were exchanged")

    def gen(self, r, i):
        p = max(2, nprocs(r, 12))
        c = Case(p, sched(r, "calm"))
        c.sched["clock"] = r.choice([0, 1, 2, 5, 6])
        history(r, c, r.choice([1, 1, 2, 3]), [FFT3, FFT3, FFT2, RM3, RM2], tunes=0.2, cap=240, nops=5, only1d=False)
        cs = [c]
        for _ in range(4):
            d = c.clone()
            d.sched = sched(r)
            d.sched["clock"] = c.sched["clock"]      # the clocks of tune() differ between processes, not between schedules
            cs.append(d)
        return Test(self.cfg(r), cs)

    def relevant(self, test, k, f):
        # wrong under every schedule is another property's concern
        return f[0] in {"deadlock", "mpi", "steps", "pending", "timeout"}

    def extra(self, test, res):
        base = res[0]
        for k, x in enumerate(res[1:]):
            a, b = {f[:2] for f in base.F}, {f[:2] for f in x.F}
            if a != b:
                return [("schedule", "outcome depends on the schedule: %s / %s" % (base.F[:1], x.F[:1]))]
            if base.F or x.F:
                continue
            for key, h in base.H.items():
                if x.H.get(key) != h:
                    return [("schedule", "operation %d on rank %d gives a different result under schedule %s" % (key[0], key[1], test.cases[k + 1].sched))]
        return []

    def nontrivial(self, test, res):
        return sum(1 for x in res[1:] if int(x.S.get("choices", 0)) > 0 and int(x.S.get("msgs", 0)) + int(x.S.get("colls", 0)) > 0) >= 2

    def labels(self, test, res):
        L = super().labels(test, res)
        for k, x in enumerate(res):
            if k and int(x.S.get("reorder", 0)):
                L.append("a schedule with overtaking")
                break
        if any(int(x.S.get("syncblocks", 0)) for x in res):
            L.append("a schedule with blocked synchronous sends")
        return L


# ---------------------------------------------------------------------------------------------- C10
class C10(Prop):
    id, quick, thorough = "C10", 9000, 112500
    kinds = {"fft", "move", "only1d", "inmod"}
    rule = ("stateful: random interleavings of the life cycles of 2-5 (rarely up to 24) instances (2d/3d FFTs and remaps, C++ and C interfaces) on the world and on generated sub-communicators in any rank order, with repeated (rarely up to 150) calls, chained calls, option changes after setup "
            "(documented to have no effect), scale/remap-only switched between calls, instances destroyed while others stay in use; every single call is checked against the oracle for that instance alone. Non-trivial: at least 2 ranks, at least 2 instances and 3 data operations")

    def gen(self, r, i):
        p = max(2, nprocs(r, 10))
        c = Case(p, sched(r))
        shape = pick(r, [("usual", 95), ("many", 2), ("long", 3)])
        c.tags.append(shape)
        if shape == "usual":
            history(r, c, r.choice([2, 2, 3, 4, 5]), [FFT3, FFT3, FFT2, RM3, RM2], apis=(CPP, CPP, CAPI), tunes=0.06, cap=240, nops=14)
        elif shape == "many":
            history(r, c, r.randint(10, 24), [FFT3, FFT2, RM3, RM2], apis=(CPP, CPP, CAPI), tunes=0.02, cap=60, nops=30)
        else:
            history(r, c, 2, [FFT3, FFT2, RM3, RM2], apis=(CPP, CPP, CAPI), tunes=0.02, cap=100, nops=r.randint(60, 150), fate=0.004)
        return Test(self.cfg(r), [c])

    def relevant(self, test, k, f):
        return f[0] in HARD or f[0] in self.kinds

    def attribute(self, test, res, bad, run):
        """a call that fails in the same way as the only call of the only instance is another property's concern"""
        c, x = test.cases[0], res[0]
        data = [i for i, o in enumerate(c.ops) if o[0] in ("compute", "remaps", "steps", "remap", "only1d")]
        fails = [f for f in x.F if self.relevant(test, 0, f)]
        named = [f for f in fails if f[1] in data]
        which = sorted({f[1] for f in named}) if len(named) == len(fails) else data
        solos = [Test(test.cfg, [self.solo(c, i)]) for i in which]
        rs = dict(zip(which, run(solos)))
        for f in fails:
            hit = [i for i in ([f[1]] if f[1] in rs else list(rs)) if rs[i] and any(g[0] == f[0] for g in rs[i][0].F)]
            if not hit:
                return bad
        return []

    @staticmethod
    def solo(c, i):
        d = c.clone()
        o = c.ops[i][1]
        keep = [i]
        j = i
        while c.ops[j][0] in ("compute", "remaps") and c.ops[j][4] == -1:      # chained on the previous call's result
            j = max(k for k in range(j) if c.ops[k][1] == o and c.ops[k][0] in ("compute", "remaps"))
            keep.append(j)
        life, up = [], False
        for k in range(i + 1):
            q = c.ops[k]
            if q[0] == "mark" or q[1] != o:
                continue
            if q[0] == "create":
                life, up = [k], False
            elif q[0] in ("setup", "tune"):
                life.append(k)
                up = True
            elif q[0] == "setupmem" or (q[0] == "set" and (not up or q[2] in ("scale", "remaponly"))):
                life.append(k)
        d.ops = [list(c.ops[k]) for k in sorted(set(life + keep))]
        return d

    def nontrivial(self, test, res):
        return test.cases[0].np >= 2 and len(test.cases[0].objs) >= 2 and int(res[0].S.get("dataops", 0)) >= 3


# ---------------------------------------------------------------------------------------------- C11
def ivec(s):
    n, v = s.split(":", 1)
    return int(n), [int(x) for x in v.split(",") if x] if v != "NULL" else None


def fvec(s):
    n, v = s.split(":", 1)
    return int(n), [float(x) for x in v.split(",") if x] if v != "NULL" else None


class C11(Prop):
    id, quick, thorough = "C11", 4800, 60000
    configs = DEF * 5 + ["md", "ws"]
    rule = ("tune() with generated geometry, initial options, flag/niter/tmax/tflag and a simulated clock per process (equal, different per process, coarse, constant, jumping, huge, or counting communication calls or 1d transforms); checked: completes, same settings and trial list on all processes, the documented "
            "trial sequence for the time limit, winner = fastest reported trial, trial times equal the calls measured on separately set-up instances (counting clocks), caller's memory option restored, and getters, sizes, memory and later results "
            "bit-identical to a fresh setup() with the tuned options. Non-trivial: at least 2 ranks")

    def gen(self, r, i):
        kind = r.choice([FFT3, FFT3, FFT2])
        p = nprocs(r, 8)
        c = Case(p, sched(r))
        mode = pick(r, [("limit", 26), ("clock", 40), ("count", 22), ("count1d", 12)])
        dims, tin, tout, perm, tag = fft_geometry(r, kind, p, 150)
        c.tags += [mode, "fft%dd" % nd_of(kind)]
        api = pick(r, [(CPP, 7), (CAPI, 3)])
        a = c.obj(kind, 0, api, dims, tin, tout, perm)
        b = c.obj(kind, 0, CPP, dims, tin, tout, perm)
        mem = r.choice([0, 1])
        opts = dict(collective=r.choice([0, 1, 2]), exchange=r.choice([0, 1]), pack=r.choice([0, 1, 2]), memory=mem)
        if r.random() < 0.2:
            opts = dict(collective=2, exchange=0, pack=2, memory=mem)
        t = dict(flag=r.choice([0, 1, -1]), niter=r.choice([1, 2, 3, 5]) if r.random() < 0.95 else r.choice([8, 10, 16, 25, 40]), tmax=0.0, tflag=r.choice([0, 1]), cseed=r.randrange(1 << 20))
        U = 1.0 / 1024
        if mode == "limit":
            c.sched["clock"] = 0
            if r.random() < 0.75:
                t["tmax"] = (r.randint(0, 9) + 0.5) * 2 * U
            else:
                t["tmax"] = (20 + r.randint(0, 160) + 0.5) * U
        elif mode == "clock":
            c.sched["clock"] = r.choice([1, 1, 2, 3, 4, 5, 6, 7, 8])
            t["tmax"] = r.choice([0.0, 0.0, 1e-5, 1e-3, 0.1, 1.0, 1e4])
        else:
            c.sched["clock"] = 9 if mode == "count" else 10
        begin_fft(r, c, a, opts, via="tune", tune=t)
        sd = r.randrange(1 << 30)
        c.op("get", a)
        pa = [r.choice([0, 1]), r.choice([0, 1])]
        c.op("compute", a, 1, pa[0], 0, sd)
        c.op("compute", a, -1, pa[1], 0, sd + 1)
        c.op("create", b, 0)
        c.op("set", b, "memory", mem)
        c.op("setuplike", b, a)
        if not mem:
            c.op("setupmem", b)
        c.op("get", b)
        c.op("compute", b, 1, pa[0], 0, sd)
        c.op("compute", b, -1, pa[1], 0, sd + 1)
        probes = []
        if mode == "count" and not (perm == 0 and tin == tout):
            for ce in r.sample([(x, y) for x in (0, 1, 2) for y in (0, 1)], 3):
                o = c.obj(kind, 0, CPP, dims, tin, tout, perm)
                c.op("create", o, 0)
                c.op("set", o, "collective", ce[0])
                c.op("set", o, "exchange", ce[1])
                c.op("set", o, "pack", 2)
                c.op("setup", o)
                e = dict(c=ce[0], e=ce[1], f=c.op("compute", o, 1, 0, 0, 1), b=c.op("compute", o, -1, 0, 0, 1), rf=c.op("remaps", o, 1, 0, 99, 1),
                         rb=c.op("remaps", o, -1, 0, 99, 1), sf=c.op("steps", o, 1, 0, 99, 1), sb=c.op("steps", o, -1, 0, 99, 1))
                c.op("destroy", o)
                probes.append(e)
        if mode == "count1d":
            for ce in r.sample([(x, y) for x in (0, 1, 2) for y in (0, 1)], 2):
                o = c.obj(kind, 0, CPP, dims, tin, tout, perm)
                c.op("create", o, 0)
                c.op("set", o, "collective", ce[0])
                c.op("set", o, "exchange", ce[1])
                c.op("set", o, "pack", 2)
                c.op("setup", o)
                probes.append(dict(c=ce[0], e=ce[1], f=c.op("compute", o, 1, 0, 0, 1), b=c.op("compute", o, -1, 0, 0, 1), of=c.op("only1d", o, 1, 0, 0, 1), ob=c.op("only1d", o, -1, 0, 0, 1)))
                c.op("destroy", o)
        c.op("destroy", a)
        c.op("destroy", b)
        return Test(r.choice(["fd", "fs", "md", "ws"]) if mode == "count1d" else self.cfg(r), [c], dict(mode=mode, tune=t, opts=opts, probes=probes))

    def relevant(self, test, k, f):
        return f[0] in HARD

    def extra(self, test, res):
        c, x, m = test.cases[0], res[0], test.meta
        nd = nd_of(c.objs[0]["kind"])
        gets = [i for i, o in enumerate(c.ops) if o[0] == "get"]
        mem = c.comms[c.objs[0]["comm"]]
        if len(gets) < 2 or any((gets[0], k) not in x.G for k in mem):
            return []
        A = [x.G[(gets[0], k)] for k in mem]
        B = [x.G[(gets[1], k)] for k in mem]
        for k in range(len(mem)):
            for key in ("collective", "exchange", "pack", "ntrial", "npertrial", "cflags", "eflags", "pflags"):
                if A[k][key] != A[0][key]:
                    return [("tune", "processes disagree after tune: %s is %s on rank 0 and %s on rank %d" % (key, A[0][key], A[k][key], k))]
            for key in B[k]:
                if key in ("ntrial", "npertrial", "setuptime", "cflags", "eflags", "pflags", "tfft", "t1d") or key.startswith("tremap"):
                    continue
                if A[k][key] != B[k][key]:
                    return [("tune", "after tune %s is %s on rank %d but setup() with the tuned options gives %s" % (key, A[k][key], k, B[k][key]))]
        comp = [i for i, o in enumerate(c.ops) if o[0] == "compute" and o[1] in (0, 1)]
        for k in mem:
            for u, v in ((0, 2), (1, 3)):
                if x.H.get((comp[u], k)) != x.H.get((comp[v], k)):
                    return [("tune", "rank %d: result after tune differs from the result after setup() with the tuned options" % k)]
        g = A[0]
        nt = int(g["ntrial"])
        cf, ef, pf = ivec(g["cflags"])[1], ivec(g["eflags"])[1], ivec(g["pflags"])[1]
        tf = fvec(g["tfft"])[1]
        npt = int(g["npertrial"])
        fin = (int(g["collective"]), int(g["exchange"]), int(g["pack"]))
        t, opts = m["tune"], m["opts"]
        init = (opts["collective"], opts["exchange"], opts["pack"])
        tr = list(zip(cf, ef, pf))
        if nt < 1 or nt > 10 or len(cf) != nt or len(tf) != nt:
            return [("tune", "ntrial=%d is not a number of trials the documented sequence can have" % nt)]
        if npt < 1 or npt > t["niter"]:
            return [("tune", "npertrial=%d for niter=%d" % (npt, t["niter"]))]
        plan = None
        if nt == 9 and sorted(tr[:6]) == [(a, b, 2) for a in (0, 1, 2) for b in (0, 1)] and [q[2] for q in tr[6:]] in ([0, 1, 2],) or \
                (nt == 9 and sorted(tr[:6]) == [(a, b, 2) for a in (0, 1, 2) for b in (0, 1)] and sorted(q[2] for q in tr[6:]) == [0, 1, 2]):
            plan = 9
        elif nt == 6 and sorted(tr) == [(a, b, 2) for a in (0, 1, 2) for b in (0, 1)]:
            plan = 6
        elif nt == 3 and sorted(tr) == [(a, 0, 2) for a in (0, 1, 2)]:
            plan = 3
        elif nt == 2 and sorted(tr) == [(1, 0, 2), (2, 0, 2)] and init != (2, 0, 2):
            plan = "2?" if tr[0] == init else 2
        elif nt == 2 and sorted(tr) == [(1, 0, 2), (2, 0, 2)]:
            plan = 2
        elif nt == 2 and tr == [init, (2, 0, 2)] and init != (2, 0, 2):
            plan = 1
        elif nt == 1 and tr == [init]:
            plan = 0
        elif nt == 1 and tr == [(2, 0, 2)]:
            plan = 1
        if plan is None:
            return [("tune", "trial list %s is not a documented sequence (initial options %s)" % (tr, init))]
        # which plan does the time limit call for (only decidable when the clock is the plain one and is read as expected)
        limit = None
        if t["tmax"] == 0.0:
            limit = {9}
            if npt != t["niter"]:
                return [("tune", "npertrial=%d although tmax=0 and niter=%d" % (npt, t["niter"]))]
        elif m["mode"] == "limit" and self.clock_ok(test, x, nt, tf, npt, t):
            U = 1.0 / 1024
            tot = 10 * (U + (3 if t["tflag"] else 1) * t["niter"] * U)
            if tot <= t["tmax"]:
                limit = {9}
                if npt != t["niter"]:
                    return [("tune", "npertrial=%d although niter=%d fits into tmax" % (npt, t["niter"]))]
            elif t["tmax"] >= 20 * U:
                limit = {9}
                if 10 * (U + npt * U) > t["tmax"] * 1.0000001:
                    return [("tune", "npertrial=%d exceeds the time limit" % npt)]
            else:
                n = int(t["tmax"] / (2 * U))
                limit = {6} if n >= 7 else {3} if n >= 4 else {2, "2?"} if n == 3 else ({1, "2?"} if init != (2, 0, 2) else {0, 1}) if n == 2 else {0}
                if npt != 1:
                    return [("tune", "npertrial=%d although not even one FFT per trial fits into tmax" % npt)]
        if limit is not None and plan not in limit:
            return [("tune", "trials %s run for tmax=%g, niter=%d (expected plan %s)" % (tr, t["tmax"], t["niter"], limit))]
        # winner
        def best(idx):
            lo = min(tf[i] for i in idx)
            return {i for i in idx if tf[i] == lo}
        ok = None
        if plan == 9:
            ok = {(cf[i], ef[i], pf[j]) for i in best(range(6)) for j in best(range(6, 9))}
            if len({(cf[j], ef[j]) for j in range(6, 9)}) != 1 or (cf[6], ef[6]) not in {(cf[i], ef[i]) for i in best(range(6))}:
                return [("tune", "packing trials did not use the fastest collective/exchange setting: %s, times %s" % (tr, tf))]
        elif plan in (6, 3, 2):
            ok = {tr[i] for i in best(range(nt))}
        elif plan == "2?":
            ok = {tr[i] for i in best(range(nt))} | {(2, 0, 2)}
        elif plan == 1:
            ok = {(2, 0, 2)}
        elif plan == 0:
            ok = {init}
        if fin not in ok:
            return [("tune", "tune selected %s, fastest %s; trials %s times %s" % (fin, sorted(ok), tr, tf))]
        if "x_cbest" in g:
            # fields only the C++ class offers
            for k in range(len(mem)):
                b = (int(A[k]["x_cbest"]), int(A[k]["x_ebest"]), int(A[k]["x_pbest"]))
                if b != fin:
                    return [("tune", "rank %d: cbest, ebest, pbest = %s but tune selected %s" % (mem[k], b, fin))]
            bt = float(g["x_besttime"])
            may = [min(tf), min(tf[6:])] if plan == 9 else [min(tf), tf[-1]] if plan in (1, "2?") else [min(tf)]
            if not any(abs(bt - v) <= 1e-9 * abs(v) + 1e-300 for v in may):
                return [("tune", "besttime is %g, trial times are %s" % (bt, tf))]
        names = ["t1d", "tremap", "tremap1", "tremap2", "tremap3"] + (["tremap4"] if nd == 3 else [])
        vec = {n: fvec(g[n])[1] for n in names}
        if t["tflag"] == 0 and plan not in (0, 1, "2?"):
            for n in names:
                if any(v != 0.0 for v in vec[n]):
                    return [("tune", "%s=%s although 1d FFTs and remaps were not to be timed" % (n, vec[n]))]
        if any(v < 0 for v in tf):
            return [("tune", "negative trial time %s" % tf)]
        # trial times against separately measured call counts
        if m["mode"] == "count" and plan == 9:
            per = npt * (2 if t["flag"] == 0 else 1)
            for e in m["probes"]:
                def calls(f, b, s=None):
                    cf_, cb_ = x.C[(f, mem[0])], x.C[(b, mem[0])]
                    q = s or 0
                    return (cf_[q] + cb_[q]) if t["flag"] == 0 else cf_[q] if t["flag"] == 1 else cb_[q]
                for i in range(6):
                    if (cf[i], ef[i]) != (e["c"], e["e"]):
                        continue
                    for n, want in [("tfft", calls(e["f"], e["b"]))] + ([("tremap", calls(e["rf"], e["rb"]))] + [("tremap%d" % q, calls(e["sf"], e["sb"], q)) for q in range(1, nd + 2)] if t["tflag"] else []):
                        have = (tf if n == "tfft" else vec[n])[i] * per * 1024
                        d = have - npt * want
                        if d < -0.01 or d > 4.01:
                            return [("tune", "trial (collective %d, exchange %d): %s accounts for %.2f calls, the operations make %d" % (e["c"], e["e"], n, have, npt * want))]
        if m["mode"] == "count1d" and plan == 9:
            per = npt * (2 if t["flag"] == 0 else 1)
            onlyr = 0
            for o in c.ops[:next(i for i, o in enumerate(c.ops) if o[0] == "tune")]:
                if o[0] == "set" and o[1] == 0 and o[2] == "remaponly":
                    onlyr = int(o[3])
            for e in m["probes"]:
                def made(f, b):
                    v = [(x.C[(f, k)][6] if t["flag"] >= 0 else 0) + (x.C[(b, k)][6] if t["flag"] <= 0 else 0) for k in mem]
                    return min(v) * npt, max(v) * npt
                for i in range(6):
                    if (cf[i], ef[i]) != (e["c"], e["e"]):
                        continue
                    for n, (lo, hi) in [("tfft", (0, 0) if onlyr else made(e["f"], e["b"]))] + ([("t1d", made(e["of"], e["ob"])), ("tremap", (0, 0))] + [("tremap%d" % q, (0, 0)) for q in range(1, nd + 2)] if t["tflag"] else []):
                        have = (tf if n == "tfft" else vec[n])[i] * per * 1024
                        if have < lo - 0.01 or have > hi + 0.01:
                            return [("tune", "trial (collective %d, exchange %d): %s accounts for %.2f 1d transforms, the operations make %d to %d on a process" % (e["c"], e["e"], n, have, lo, hi))]
        return []

    @staticmethod
    def clock_ok(test, x, nt, tf, npt, t):
        # clock mode 0 advances 1/1024 per reading: usable as an oracle only if one trial of one FFT set is bracketed by two readings
        # and the whole of tune() reads it as often as the trials it reports explain
        s = npt * (2 if t["flag"] == 0 else 1)
        w = {int(v) for k, v in x.W.items()}
        if len(w) != 1 or not w <= {6 + 2 * nt, 4 + 2 * nt, 24 + 9 * (6 if nd_of(test.cases[0].objs[0]["kind"]) == 3 else 5)}:
            return False
        return all(abs(v * s * 1024 - 1) < 1e-6 for v in tf)

    def nontrivial(self, test, res):
        return test.cases[0].np >= 2


# ---------------------------------------------------------------------------------------------- C12
class C12(Prop):
    id, quick, thorough = "C12", 19200, 300000
    configs = ["kd", "kd", "ks", "fd", "fs"] * 5 + ["md", "ws"]
    rule = ("80%: a valid history with exactly one invalid request injected (wrong precision; dimension < 2 or not 5-smooth; one process's input extents out of range or inverted; tiles not adding up to the grid; invalid tune arguments; second setup/tune; buffers supplied before setup or although "
            "internal; computing, partial operations or remapping before setup or before buffers were supplied) through the C++ or C interface, under adversarial schedules: every process of the communicator must exit with non-zero status and a message, none may hang, crash or get past the request. "
            "20%: valid requests, among them grids of more than 2^31 points and grids with one dimension so long that its product with the number of processes exceeds 2^31, with internal or caller buffers, which must be accepted on all processes. Non-trivial: an invalid request was reached or a grid of more than 2^31 points set up")
    kinds = {"accepted", "badexit", "nomsg", "early"}

    def gen(self, r, i):
        if r.random() < 0.2:
            return self.valid(r)
        p = nprocs(r, 8)
        c = Case(p, sched(r))
        comm = 0
        if p > 1 and r.random() < 0.2:
            comm = c.comm(subcomm(r, p))
        q = len(c.comms[comm])
        api = r.choice([CPP, CPP, CAPI])
        what = r.choice(["prec", "small", "prime", "range", "range", "inverted", "cover", "cover", "targ", "twice", "membefore", "meminternal", "early", "early", "nobuf", "nobuf", "rearly", "rtwice"])
        c.tags.append(what)
        if what in ("rearly", "rtwice"):
            kind = r.choice([RM3, RM2])
            dims, tin, tout, perm, tag = remap_geometry(r, kind, q)
            o = c.obj(kind, comm, api, dims, tin, tout, perm, r.choice([1, 2, 3]), r.choice([0, 1]))
            c.op("create", o, 0)
            c.op("set", o, "collective", r.choice([0, 1]))
            if what == "rearly":
                c.expect = c.op("remap", o, 1, r.choice([0, 1]), 99, 1)
            else:
                c.op("setup", o)
                if r.random() < 0.5:
                    c.op("remap", o, 1, r.choice([0, 1]), 99, 1)
                c.expect = c.op("setup", o)
            return Test(self.cfg(r), [c])
        kind = r.choice([FFT3, FFT2])
        nd = nd_of(kind)
        dims, tin, tout, perm, tag = fft_geometry(r, kind, q, 300)
        mem = r.choice([0, 1])
        if what == "small":
            d = r.randrange(nd)
            v = r.choice([1, 1, 0, -1, -3])
            dims[d] = v
            tin = [[(0, v - 1) if e == d and (v > 0) else ((0, -1) if e == d else b[e]) for e in range(nd)] for b in tin]
            if v == 1:
                tin = grid_tiling(r, dims, q)
            tout = tin
        if what == "prime":
            d = r.randrange(nd)
            dims[d] = r.choice([7, 11, 13, 14, 21, 22, 28, 33, 35, 49, 77, 17 * 2, 7 * 30])
            tin, tout, tag = tiling_pair(r, dims, q, perm, nd - 1)
        o = c.obj(kind, comm, api, dims, tin, tout, perm)
        ob = c.objs[o]
        via = r.choice(["setup", "setup", "tune"])

        def tune_op(flag=1, niter=1, tmax=0.0, tflag=0):
            return c.op("tune", o, flag, niter, repr(tmax), tflag, 1)

        def setup_op():
            return c.op("setup", o) if via == "setup" else tune_op()
        if what == "prec":
            cfg = self.cfg(r)
            other = 1 if cfg[1] == "d" else 2
            c.expect = c.op("create", o, r.choice([other, other, other, 3, 4, -1, -2, 99]))
            return Test(cfg, [c])
        c.op("create", o, 0)
        if what == "nobuf":
            mem = 0
        if what == "meminternal":
            mem = 1
        c.op("set", o, "memory", mem)
        for k, v in (("collective", r.choice([0, 1, 2])), ("exchange", r.choice([0, 1])), ("pack", r.choice([0, 1, 2]))):
            c.op("set", o, k, v)
        if what in ("small", "prime"):
            c.expect = setup_op()
        elif what in ("range", "inverted", "cover"):
            k = r.randrange(q)
            if r.random() < 0.3 and q > 1:
                k = q - 1
            b = [list(x) for x in ob["tin"][k]]
            d = r.randrange(nd)
            keep = r.random() < 0.6      # leave the number of points unchanged, so that only the extent check can notice
            if what == "range":
                if keep and box_size(b) > 0:
                    s = b[d][1] - b[d][0]
                    if r.random() < 0.6:
                        x = dims[d] + r.choice([0, 0, 0, 1, s, dims[d]])
                        b[d] = [x - s, x]
                    else:
                        x = -r.choice([1, 1, 1, 2, dims[d]])
                        b[d] = [x, x + s]
                    c.tags.append("range, same size")
                elif r.random() < 0.5:
                    b[d][0] = -r.choice([1, 1, 2, dims[d]])
                else:
                    b[d][1] = dims[d] + r.choice([0, 0, 1, dims[d]])
                    if r.random() < 0.5:
                        b[d][0] = dims[d]      # moved past the end
            elif what == "inverted":
                d2 = r.choice([e for e in range(nd) if e != d])
                n0 = box_size(ob["tin"][k])
                opts = []
                if keep and n0:
                    # two inverted dimensions whose negative sizes multiply to the size of the tile
                    m = (b[d][1] - b[d][0] + 1) * (b[d2][1] - b[d2][0] + 1)
                    opts = [(x, m // x) for x in range(1, m + 1) if m % x == 0 and x < dims[d] and m // x < dims[d2]]
                elif keep:
                    # an empty tile stays empty
                    e = [x for x in range(nd) if b[x][1] < b[x][0]]
                    if len(e) == 1 and d == e[0]:
                        d = d2
                if opts:
                    u, v = r.choice(opts)
                    for e, x in ((d, u), (d2, v)):
                        lo = r.randint(x, dims[e])
                        lo = min(lo, dims[e])
                        b[e] = [lo, lo - x - 1]
                        if b[e][1] < -1:
                            b[e] = [x, -1]
                    c.tags.append("inverted, same size")
                else:
                    hi = r.randint(-1, dims[d] - 2)
                    b[d] = [hi + r.randint(2, 2 + max(0, dims[d] - hi - 2)), hi]
                    if b[d][0] < hi + 2:
                        b[d][0] = hi + 2
            else:
                n0 = box_size(ob["tin"][k])
                for _ in range(50):
                    b = [list(x) for x in ob["tin"][k]]
                    lo = r.randint(0, dims[d])
                    hi = r.randint(lo - 1, dims[d] - 1)
                    b[d] = [lo, hi]
                    if box_size(b) != n0:
                        break
                else:
                    b = [[0, n - 1] for n in dims] if n0 != box_size([(0, n - 1) for n in dims]) else [[0, -1]] + [[0, n - 1] for n in dims[1:]]
            ob["tin"][k] = [tuple(x) for x in b]
            c.expect = setup_op()
        elif what == "targ":
            a = r.choice([dict(flag=2), dict(flag=-2), dict(flag=7), dict(niter=0), dict(niter=-1), dict(niter=-5), dict(tmax=-1.0), dict(tmax=-1e-9), dict(tflag=2), dict(tflag=-1)])
            c.expect = tune_op(**a)
        elif what == "twice":
            setup_op()
            if not mem and r.random() < 0.5:
                c.op("setupmem", o)
            if mem and r.random() < 0.5:
                c.op("compute", o, 1, 0, 0, 1)
            via = r.choice(["setup", "tune"])
            c.expect = setup_op()
        elif what == "membefore":
            c.expect = c.op("setupmem", o)
        elif what == "meminternal":
            setup_op()
            if r.random() < 0.4:
                c.op("set", o, "memory", 0)      # too late
            c.expect = c.op("setupmem", o)
        elif what in ("early", "nobuf"):
            if what == "nobuf":
                setup_op()
                if r.random() < 0.3:
                    c.op("set", o, "memory", 1)      # too late
                if r.random() < 0.3:
                    c.op("only1d", o, 1, 0, 0, 1)
            w = r.choice(["compute", "remaps", "steps"] + (["only1d"] if what == "early" else []))
            c.expect = c.op(w, o, r.choice([1, -1]), r.choice([0, 1]), 0 if w in ("compute", "only1d") else 99, 1)
        return Test(self.cfg(r), [c])

    def valid(self, r):
        if r.random() < 0.25:
            kind = r.choice([FFT3, FFT3, FFT2])
            p = r.choice([8, 9, 12, 16, 18, 20, 24])
            nd = nd_of(kind)
            long = r.random() < 0.4                # one very long dimension: products of length and number of processes exceed 2^31
            if long:
                p = r.choice([6, 8, 12, 16, 24, 30, 40])
            while long:
                d = [r.choice([2, 3, 4, 5, 6, 8]) for _ in range(nd)]
                d[r.randrange(nd)] = 2 ** r.randrange(14, 29) * 3 ** r.randrange(0, 6) * 5 ** r.randrange(0, 4)
                n = 1
                for x in d:
                    n *= x
                worst = 0                          # largest tile of any process grid: 2 values per element must stay countable
                for f in factorizations(p, nd):
                    t = 1
                    for x, y in zip(d, f):
                        t *= -(-x // y)
                    worst = max(worst, t)
                if 2 ** 31 < max(d) * p and worst < 2 ** 30:
                    break
            while not long:
                d = [r.choice([n for n in SMOOTH if (600 <= n <= 4000 if nd == 3 else 20000 <= n or n >= 4000)]) for _ in range(nd)]
                if nd == 2:
                    d = [x * r.choice([8, 9, 10, 16]) for x in d]
                n = 1
                for x in d:
                    n *= x
                if 2 ** 31 < n < 2 ** 29 * p * 0.8:
                    break
            c = Case(p, sched(r))
            facs = [f for f in factorizations(p, nd)]
            tin = grid_tiling(r, d, p, r.choice(facs), "uniform")
            tout = grid_tiling(r, d, p, r.choice(facs), "uniform") if r.random() < 0.8 else tin
            coll, exch, perm, gets = r.choice([0, 1, 2]), r.choice([0, 1]), r.randrange(nd), []
            for mem in r.choice([(0,), (1,), (0, 1)]):
                o = c.obj(kind, 0, CPP, d, tin, tout, perm)
                c.op("create", o, 0)
                c.op("set", o, "memory", mem)
                c.op("set", o, "collective", coll)
                c.op("set", o, "exchange", exch)
                c.op("setup", o)
                gets.append(c.op("get", o))
                c.op("destroy", o)
            c.tags.append("huge")
            return Test(r.choice(["md", "ws"] if long else ["kd", "ks", "fd"]), [c], dict(huge=1, gets=gets if len(gets) == 2 else [], rgets=[], tune=0))
        p = nprocs(r, 12)
        c = Case(p, sched(r))
        c.tags.append("valid")
        history(r, c, 1, [FFT3, FFT2, RM3, RM2], apis=(CPP, CAPI), tunes=0.3, nops=1, cap=300)
        return Test(self.cfg(r), [c])

    def relevant(self, test, k, f):
        if test.cases[k].expect >= 0:
            return f[0] in HARD or f[0] in self.kinds
        return f[0] in ("refused", "abort", "crash", "asan", "deadlock", "mpi")

    def nontrivial(self, test, res):
        return test.cases[0].expect >= 0 or "huge" in test.cases[0].tags


# ---------------------------------------------------------------------------------------------- C13
class C13(Prop):
    id, quick, thorough = "C13", 14000, 175000
    kinds = {"move", "only1d", "only1d-comm"}
    rule = ("remap-only transforms, remaps-only calls and the sequence of single-remap calls on arbitrary bit patterns, both directions, in and out of place (also between intermediate remaps), scaling on and off: the result must be the input bits at their place in the target layout; "
            "1d-FFT-only calls must equal the reference 1d transforms of the process's own data and make no communication call. Non-trivial: at least 2 ranks and data was communicated")

    def gen(self, r, i):
        kind = r.choice([FFT3, FFT3, FFT2])
        p = nprocs(r, 12)
        c = Case(p, sched(r))
        dims, tin, tout, perm, tag = fft_geometry(r, kind, p)
        o = c.obj(kind, 0, pick(r, [(CPP, 8), (CAPI, 2)]), dims, tin, tout, perm)
        c.tags += ["rel-" + tag[2], "perm%d" % perm]
        begin_fft(r, c, o)
        same = same_layout(c.objs[o])
        ro = 0
        for _ in range(r.choice([2, 3, 4])):
            what = r.choice(["ro", "remaps", "remaps", "steps", "steps", "only1d", "mix"])
            if r.random() < 0.2:
                c.op("set", o, "scale", r.choice([0, 1]))
            if what == "ro":
                c.op("set", o, "remaponly", 1)
                d = r.choice([1, -1])
                c.op("compute", o, d, r.choice([0, 1]), 99, r.randrange(1 << 30))
                if r.random() < 0.5:
                    c.op("compute", o, -d, r.choice([0, 1]), -1, 0)
                ro = 1
            elif what == "mix":
                if ro:
                    c.op("set", o, "remaponly", 0)
                    ro = 0
                c.op("compute", o, r.choice([1, -1]), r.choice([0, 1]), 0, r.randrange(1 << 30))
            elif what == "remaps":
                d = r.choice([1, -1])
                c.op("remaps", o, d, r.choice([0, 1]), 99, r.randrange(1 << 30))
                if r.random() < 0.4:
                    c.op("remaps", o, -d, r.choice([0, 1]), -1, 0)
            elif what == "steps":
                c.op("steps", o, 1 if same else r.choice([1, -1]), r.choice([0, 1, 2]), 99, r.randrange(1 << 30))
            else:
                c.op("only1d", o, r.choice([1, -1]), 0, 0, r.randrange(1 << 30))
        c.op("destroy", o)
        return Test(self.cfg(r), [c])

    def relevant(self, test, k, f):
        return f[0] in HARD or f[0] in self.kinds


# ---------------------------------------------------------------------------------------------- C14 C15
class Twin(Prop):
    api = CAPI
    names = ["unknown", "npfast", "Collective", "tfftx", "", "memory"]

    def gen(self, r, i):
        p = nprocs(r, 8)
        c = Case(p, sched(r))
        m = r.random()
        kind = r.choice([FFT3, FFT2]) if m < 0.75 else r.choice([RM3, RM2])
        comm = c.comm(subcomm(r, p)) if r.random() < 0.25 else 0
        q = len(c.comms[comm])
        fft = kind in (FFT3, FFT2)
        tune = fft and r.random() < 0.3
        if tune:
            c.sched["clock"] = r.choice([1, 2, 5, 6])
        if fft:
            dims, tin, tout, perm, tag = fft_geometry(r, kind, q, 120 if tune else 500)
            nq, mem = 2, 1
        else:
            dims, tin, tout, perm, tag = remap_geometry(r, kind, q)
            nq, mem = nqty(r, dims, r.choice([1, 2, 3, 4])), r.choice([0, 1])
        a = c.obj(kind, comm, CPP, dims, tin, tout, perm, nq, mem)
        b = c.obj(kind, comm, self.api, dims, tin, tout, perm, nq, mem)
        c.tags += ["tune" if tune else "setup", "kind%d" % kind]
        ops = []
        if fft:
            opts = rand_opts(r)
            for k in list(opts):
                if r.random() < 0.15:
                    del opts[k]
            for k in opts:
                if r.random() < 0.06:
                    ops.append(("get0",))
                if r.random() < 0.08:
                    ops.append(("set", k, r.choice([0, 1] if k in ("exchange", "memory") else [0, 1, 2])))
                ops.append(("set", k, opts[k]))
            if r.random() < 0.1:
                ops.append(("get0",))
            if tune:
                ops.append(("tune", r.choice([0, 1, -1]), r.choice([1, 2, 3]), repr(r.choice([0.0, 0.0, 0.001, 0.01])), r.choice([0, 1]), r.randrange(1 << 20)))
            else:
                ops.append(("setup",))
            if not opts.get("memory", 1):
                ops.append(("setupmem",))
            ops.append(("get",))
            for _ in range(r.choice([1, 2, 3])):
                if r.random() < 0.3:
                    ops.append(("set", "scale", r.choice([0, 1])))
                if r.random() < 0.2:
                    ops.append(("set", "remaponly", r.choice([0, 1])))
                w = r.choice(["compute", "compute", "compute", "remaps", "steps", "only1d"])
                d = r.choice([1, -1])
                if w == "steps" and same_layout(c.objs[a]):
                    d = 1
                ops.append((w, d, r.choice([0, 1]), 0 if w in ("compute", "only1d") else 99, r.randrange(1 << 30)))
            if r.random() < 0.3:
                ops.append(("get",))
        else:
            for k, v in (("collective", r.choice([0, 1])), ("pack", r.choice([0, 1, 2]))):
                if r.random() < 0.85:
                    ops.append(("set", k, v))
            ops.append(("setup",))
            for _ in range(r.choice([1, 2])):
                ops.append(("remap", 1, r.choice([0, 1]), 99, r.randrange(1 << 30)))
        pairs = []
        for ob in (a, b):
            c.op("create", ob, 0)
            idx = []
            for o in ops:
                idx.append(c.op(o[0], ob, *o[1:]))
            pairs.append(idx)
            if ob == b and fft and self.api == CAPI and r.random() < 0.5:
                c.op("unk", b, r.choice(["unknown", "npfast", "Collective", "tfftx", "xyz", "npslow9", "setup"]))
        c.op("destroy", a)
        c.op("destroy", b)
        return Test(self.cfg(r), [c], dict(pairs=pairs))

    def relevant(self, test, k, f):
        # shared misbehaviour of both interfaces is another property's concern
        if f[0] in ("fft", "move", "only1d", "only1d-comm", "inmod", "edge") and f[1] >= 0:
            return test.cases[k].objs[test.cases[k].ops[f[1]][1]]["api"] == self.api and self.only_second(test, k, f)
        return f[0] in HARD

    def only_second(self, test, k, f):
        fails = {g[1] for g in self._res[k].F if g[0] == f[0]}
        A, B = test.meta["pairs"]
        return f[1] in B and A[B.index(f[1])] not in fails

    def check(self, test, res):
        self._res = res
        return super().check(test, res)

    def extra(self, test, res):
        c, x = test.cases[0], res[0]
        A, B = test.meta["pairs"]
        ranks = c.comms[c.objs[0]["comm"]]
        for a, b in zip(A, B):
            for k in ranks:
                if (a, k) in x.H and x.H[(a, k)] != x.H.get((b, k)):
                    return [("twin", "%s on rank %d: result through the wrapper differs from the C++ result" % (c.ops[a], k))]
                if (a, k) in x.G:
                    ga, gb = x.G[(a, k)], x.G.get((b, k), {})
                    for key in ga:
                        if key.startswith("x_") or (key == "memusage" and gb.get(key) == "-9"):      # not available through the wrappers
                            continue
                        if ga[key] != gb.get(key):
                            return [("twin", "rank %d: %s is %s through the wrapper and %s in the C++ object" % (k, key, gb.get(key), ga[key]))]
                if (a, k) in x.W and x.W[(a, k)] != x.W.get((b, k)):
                    return [("twin", "rank %d: tune through the wrapper reads the clock %s times, C++ %s times" % (k, x.W.get((b, k)), x.W[(a, k)]))]
                if (a, k) in x.C and x.C[(a, k)] != x.C.get((b, k)):
                    return [("twin", "%s on rank %d: the wrapper's call makes %s [communication calls, in each step, block copies, 1d transforms], the C++ call %s" % (c.ops[a], k, x.C.get((b, k)), x.C[(a, k)]))]
        for key, v in x.U.items():
            if v != ["-1", "-1", "-1", "1", "1", "1"]:
                return [("twin", "unknown statistics name %s: getters return %s, documented -1, -1.0, -1, NULL, NULL, NULL" % (c.ops[key[0]][2], v))]
        return []

    def nontrivial(self, test, res):
        return int(res[0].S.get("dataops", 0)) >= 2


class C14(Twin):
    id, quick, thorough, api = "C14", 7200, 90000, CAPI
    configs = ["kd", "ks", "fd", "fs"]
    rule = ("differential: the same generated call sequence (options, statistics before setup, setup or tune with an identical simulated clock, buffers, compute/partial/remap calls, statistics) is run on a C++ object and through the C interface (called from C); all sizes, statistics values, vector lengths, number of communication calls and result bits must be "
            "identical; unknown names must return the documented failure values. Non-trivial: at least two data operations compared")


class C15(Twin):
    id, quick, thorough, api = "C15", 6400, 80000, FAPI
    configs = ["kdF", "ksF"]
    rule = ("differential: the same generated call sequence is run on a C++ object and from Fortran through the shipped modules (indices 1..N, c_loc buffers, Fortran communicator handles); all sizes, statistics, vector lengths, communication calls and result bits must be identical. "
            "Non-trivial: at least two data operations compared")


# ---------------------------------------------------------------------------------------------- C16
class C16(Prop):
    id, quick, thorough = "C16", 6800, 85000
    configs = WITH2
    rule = ("4 identical generated life cycles (create only; create+options; setup; tune; setup and operations; several instances destroyed in random order, some used after others are gone) with all library allocations, communicators, groups, requests and 1d-FFT plans counted after each: the counts after cycle 4 must equal those after cycle 2, "
            "AddressSanitizer watches for double frees, caller buffers must stay writable. Non-trivial: at least one instance was set up or tuned")

    def gen(self, r, i):
        p = nprocs(r, 8)
        c = Case(p, sched(r))
        m = r.random()
        if m < 0.15:
            kind = r.choice([FFT3, FFT2, RM3, RM2])
            dims, tin, tout, perm, tag = (fft_geometry if kind < 2 else remap_geometry)(r, kind, p)[:5]
            o = c.obj(kind, 0, r.choice([CPP, CAPI]), dims, tin, tout, perm)
            for cyc in range(4):
                c.op("create", o, 0)
                if kind < 2 and cyc % 2:
                    c.op("set", o, "memory", 0)
                c.op("destroy", o)
                c.op("mark", 0)
            c.tags.append("never set up")
        else:
            history(r, c, r.choice([1, 1, 2, 3]), [FFT3, FFT2, RM3, RM2], apis=(CPP, CAPI), tunes=0.25, cap=150, nops=3, late=r.random() < 0.5)
            one = [list(o) for o in c.ops]
            c.ops = []
            for cyc in range(4):
                c.ops += [list(o) for o in one]
                c.op("mark", 0)
        return Test(self.cfg(r), [c])

    def relevant(self, test, k, f):
        return f[0] in ("asan", "crash", "user") or (f[0] == "mpi" and ("free" in f[3].lower() or "leak" in f[3].lower() or "handle" in f[3].lower() or "comm" in f[3].lower())) or \
            (f[0] in ("deadlock", "abort", "refused", "timeout") and f[1] >= 0 and test.cases[k].ops[f[1]][0] in ("destroy", "mark"))

    def extra(self, test, res):
        c, x = test.cases[0], res[0]
        if x.F:
            return []
        ms = [i for i, o in enumerate(c.ops) if o[0] == "mark"]
        names = ["allocations", "allocated bytes", "1d FFT plans", "communicators", "groups", "requests"]
        for k in range(c.np):
            a, b = x.M.get((ms[1], k)), x.M.get((ms[3], k))
            if a is None or b is None:
                continue
            for n, u, v in zip(names, a, b):
                if v > u:
                    return [("leak", "rank %d: live %s grow from %d after cycle 2 to %d after cycle 4 of create/use/destroy" % (k, n, u, v))]
        return []

    def nontrivial(self, test, res):
        return any(o[0] in ("setup", "tune") for o in test.cases[0].ops)


# ---------------------------------------------------------------------------------------------- C17
class C17(Prop):
    id, quick, thorough = "C17", 6400, 80000
    configs = DEF * 5 + ["md", "ws"]
    kinds = {"fft"}
    rule = ("grids in which one dimension is swept over all products of 2, 3 and 5 up to 8192, rarely up to 131072 (every length up to 1500 at least once per 1000 cases, in fast, mid or slow position), both directions, both precisions and 1d libraries, 10 kinds of data (random, integer, impulse, constant, real, wide dynamic range, plane waves, smooth, tiny, huge) and "
            "in-place round trips; relative L2 error against a long-double reference must stay below eps*(3+1.2*log2 N). Non-trivial: the long dimension has at least 2 prime factors")

    def gen(self, r, i):
        kind = r.choice([FFT3, FFT2])
        nd = nd_of(kind)
        L = SMOOTH[i % len([n for n in SMOOTH if n <= 1500])] if r.random() < 0.85 else r.choice(SMOOTH)
        cfg = self.cfg(r)
        if r.random() < 0.006:
            L = r.choice(LONG)
        rest = [r.choice([2, 2, 3, 4, 5, 6]) for _ in range(nd - 1)]
        while L * (rest[0] * (rest[1] if nd == 3 else 1)) > 30000:
            rest = [max(2, x - 1) for x in rest]
            if all(x == 2 for x in rest):
                break
        if L in LONG:
            kind, nd, rest = FFT2, 2, [2]
        rest = [x if x in SMOOTH else 2 for x in rest]
        pos = r.randrange(nd)
        dims = rest[:pos] + [L] + rest[pos:]
        p = pick(r, [(1, 40), (2, 30), (3, 15), (4, 15)])
        perm = r.randrange(nd)
        tin, tout, tag = tiling_pair(r, dims, p, perm, nd - 1)
        c = Case(p, sched(r, "calm"))
        o = c.obj(kind, 0, CPP, dims, tin, tout, perm)
        begin_fft(r, c, o)
        c.op("compute", o, 1, r.choice([0, 1]), datakind(r), r.randrange(1 << 30))
        if r.random() < 0.5:
            c.op("compute", o, -1, r.choice([0, 1]), -1, 0)
        else:
            if r.random() < 0.5:
                c.op("set", o, "scale", 0)
            c.op("compute", o, -1, r.choice([0, 1]), datakind(r), r.randrange(1 << 30))
        c.op("destroy", o)
        c.tags.append("len<=32" if L <= 32 else "len<=256" if L <= 256 else "len<=1500" if L <= 1500 else "len>1500" if L <= 8192 else "len>8192")
        return Test(cfg, [c])

    def relevant(self, test, k, f):
        return f[0] in HARD or f[0] == "fft"

    def nontrivial(self, test, res):
        n = max(test.cases[0].objs[0]["dims"])
        return n not in (2, 3, 5)


# ---------------------------------------------------------------------------------------------- C18
class C18(Prop):
    id, quick, thorough = "C18", 8000, 100000
    configs = WITH1
    rule = ("after setup or tune of generated geometries (including grids of more than 2^31 points), on every process: FFT size at least both tiles and at most the largest tile of any stage (from the reported process grids), process grids multiply to the communicator size with 1 along the transform direction, brick grid reported exactly when exchange=1, "
            "send/receive sizes sufficient (guarded buffers of exactly that size in operations), memory usage with internal minus caller buffers equals the buffer bytes, option getters as set or, if never set, the documented defaults, library name and precision as configured; before setup: options, names and untouched counters. Non-trivial: at least 2 ranks")

    def gen(self, r, i):
        if r.random() < 0.04:
            t = C12().valid(r)
            while "huge" not in t.cases[0].tags:
                t = C12().valid(r)
            return t
        kind = r.choice([FFT3, FFT3, FFT2])
        p = nprocs(r, 24 if r.random() < 0.3 else 12)
        c = Case(p, sched(r))
        comm = c.comm(subcomm(r, p)) if r.random() < 0.2 else 0
        q = len(c.comms[comm])
        dims, tin, tout, perm, tag = fft_geometry(r, kind, q)
        opts = rand_opts(r)
        for k in ("collective", "exchange", "pack"):
            if r.random() < 0.15:
                del opts[k]
        ab = []
        api = pick(r, [(CPP, 6), (CAPI, 4)])
        tune = r.random() < 0.08
        early = None
        if r.random() < 0.2:
            o = c.obj(kind, comm, api, dims, tin, tout, perm)
            c.op("create", o, 0)
            some = {k: v for k, v in rand_opts(r).items() if r.random() < 0.4}
            for k in some:
                c.op("set", o, k, some[k])
            early = [c.op("get0", o), some]
            if r.random() < 0.5:
                c.op("destroy", o)
        for mem in (0, 1):
            o = c.obj(kind, comm, api, dims, tin, tout, perm)
            opts["memory"] = mem
            begin_fft(r, c, o, dict(opts), via="tune" if tune and mem else "setup")
            ab.append(c.op("get", o))
            w = r.choice(["compute", "remaps"])
            for d in (1, -1):
                c.op(w, o, d, r.choice([0, 1]), 0 if w == "compute" else 99, r.randrange(1 << 30))
        rk = r.choice([RM3, RM2]) if r.random() < 0.3 else None
        rg = []
        if rk is not None:
            dims, tin, tout, perm, tag = remap_geometry(r, rk, q)
            nq = nqty(r, dims, r.choice([1, 2, 3]))
            ro = dict(collective=r.choice([0, 1]), pack=r.choice([0, 1, 2]))
            for mem in (0, 1):
                o = c.obj(rk, comm, CPP, dims, tin, tout, perm, nq, mem)
                begin_remap(r, c, o, ro)
                rg.append(c.op("get", o))
                c.op("remap", o, 1, r.choice([0, 1]), 99, 1)
        return Test(self.cfg(r), [c], dict(gets=ab, rgets=rg, opts=opts, tune=tune, early=early))

    def relevant(self, test, k, f):
        return f[0] in ("asan", "crash", "edge") or (f[0] == "mpi" and "trunc" in f[3])

    def extra(self, test, res):
        c, x, m = test.cases[0], res[0], test.meta
        ss = 8 if test.cfg[1] == "d" else 4
        name = {"k": "4:KISS", "f": "5:FFTW3", "m": "3:MKL", "w": "5:FFTW2"}[test.cfg[0]]
        defaults = dict(collective=2, exchange=0, pack=2)
        if m.get("early"):
            gi, some = m["early"]
            want = {k: str(some.get(k, v)) for k, v in defaults.items()}
            want.update(ntrial="0", npertrial="0", memusage="0", fft1d=name, precision="6:double" if ss == 8 else "6:single")
            for k in c.comms[c.objs[c.ops[gi][1]]["comm"]]:
                g = x.G.get((gi, k))
                if g is None:
                    return []
                for n in want:
                    if g[n] != want[n]:
                        return [("sizes", "rank %d: before setup %s is reported as %s, expected %s" % (k, n, g[n], want[n]))]
        gets = [i for i, o in enumerate(c.ops) if o[0] == "get"]
        for gi in gets:
            ob = c.objs[c.ops[gi][1]]
            ranks = c.comms[ob["comm"]]
            q = len(ranks)
            nd = nd_of(ob["kind"])
            if ob["kind"] > 1:
                continue
            for cr, k in enumerate(ranks):
                g = x.G.get((gi, k))
                if g is None:
                    return []
                v = {a: int(b) for a, b in g.items() if b.lstrip("-").isdigit()}
                bi, bo = box_size(ob["tin"][cr]), box_size(ob["tout"][cr])
                where = "rank %d (grid %s)" % (k, ob["dims"])
                if v["fftsize"] < max(bi, bo):
                    return [("sizes", "%s: FFT size %d is smaller than the tile %d" % (where, v["fftsize"], max(bi, bo)))]
                if v["sendsize"] < 0 or v["recvsize"] < 0 or v["memusage"] < 0:
                    return [("sizes", "%s: negative size %s" % (where, g))]
                gr = {"npfast": [v["npfast%d" % d] for d in range(1, nd + 1)], "npslow": [v["npslow%d" % d] for d in range(1, nd + 1)]}
                if nd == 3:
                    gr["npmid"] = [v["npmid%d" % d] for d in range(1, 4)]
                one = {"npfast": 0, "npmid": 1, "npslow": nd - 1}
                for n, a in gr.items():
                    pr = 1
                    for y in a:
                        pr *= y
                    if pr != q or min(a) < 1:
                        return [("sizes", "%s: process grid %s=%s does not multiply to %d processes" % (where, n, a, q))]
                    if a[one[n]] != 1:
                        return [("sizes", "%s: process grid %s=%s divides the transform direction" % (where, n, a))]
                br = [v["npbrick%d" % d] for d in range(1, nd + 1)]
                if v["exchange"]:
                    pr = 1
                    for y in br:
                        pr *= y
                    if pr != q or min(br) < 1:
                        return [("sizes", "%s: brick process grid %s does not multiply to %d processes" % (where, br, q))]
                elif any(br):
                    return [("sizes", "%s: brick process grid %s reported although bricks are not used" % (where, br))]
                up = [bi, bo]
                for a in list(gr.values()) + ([br] if v["exchange"] else []):
                    s = 1
                    for d in range(nd):
                        s *= -(-ob["dims"][d] // a[d])
                    up.append(s)
                if v["fftsize"] > max(up):
                    return [("sizes", "%s: FFT size %d exceeds the largest tile %d of any stage" % (where, v["fftsize"], max(up)))]
                if g["fft1d"] != name or g["precision"] != ("6:double" if ss == 8 else "6:single"):
                    return [("sizes", "%s: library/precision reported as %s/%s in build %s" % (where, g["fft1d"], g["precision"], test.cfg))]
                # the grids are the same on every process
                for n in list(gr) + ["npbrick"]:
                    for d in range(1, nd + 1):
                        if g["%s%d" % (n, d)] != x.G[(gi, ranks[0])]["%s%d" % (n, d)]:
                            return [("sizes", "processes report different process grids")]
                if not m.get("tune") and not m.get("huge"):
                    for n in ("collective", "exchange", "pack"):
                        if v[n] != m["opts"].get(n, defaults[n]):
                            return [("sizes", "%s: option %s reported as %d, expected %d (%s)" % (where, n, v[n], m["opts"].get(n, defaults[n]), "as set" if n in m["opts"] else "the default"))]
        for pair in (m["gets"] if not m["tune"] else [], m["rgets"]):
            if not pair:
                continue
            ob = c.objs[c.ops[pair[0]][1]]
            for cr, k in enumerate(c.comms[ob["comm"]]):
                a, b = x.G.get((pair[0], k)), x.G.get((pair[1], k))
                if a is None or b is None:
                    continue
                for n in ("sendsize", "recvsize"):
                    if a[n] != b[n]:
                        return [("sizes", "rank %d: %s depends on who provides the memory" % (k, n))]
                d = int(b["memusage"]) - int(a["memusage"])
                want = (int(a["sendsize"]) + int(a["recvsize"])) * ss
                if d != want:
                    return [("sizes", "rank %d: internal send/receive buffers of %d bytes change the reported memory usage by %d" % (k, want, d))]
        return []

    def nontrivial(self, test, res):
        return test.cases[0].np >= 2


# ---------------------------------------------------------------------------------------------- C20
class C20(Prop):
    id, quick, thorough = "C20", 30000, 500000
    kinds = {"fft", "move", "nomsg", "badexit", "pending"}
    rule = ("setup() of an FFT or remap, tune() or a transform in which one generated memory request of one process (or of each process) - the k-th, or the first of at least so many bytes, or the one that enlarges an existing array; an array, buffer or 1d-FFT plan - or that and all later ones fail, followed by transforms or remaps; accepted: the process prints a message and aborts the run with "
            "non-zero status, or the library copes and every later result is right; a crash, hang, wrong result or silent end is a violation unless it also happens without the injected failure. Non-trivial: a request was made to fail")

    def gen(self, r, i):
        p = nprocs(r, 8)
        c = Case(p, sched(r))
        comm = 0
        if p > 1 and r.random() < 0.2:
            comm = c.comm(subcomm(r, p))
        q = len(c.comms[comm])
        kind = pick(r, [(FFT3, 35), (FFT2, 30), (RM3, 20), (RM2, 15)])
        cfg = self.cfg(r)
        api = pick(r, [(CPP, 7), (CAPI, 3)])
        fft = kind in (FFT3, FFT2)
        tune = fft and r.random() < 0.25
        later = fft and not tune and r.random() < 0.25      # during a transform instead of during setup
        if fft:
            dims, tin, tout, perm, tag = fft_geometry(r, kind, q, 200)
            o = c.obj(kind, comm, api, dims, tin, tout, perm)
            opts = rand_opts(r)
        else:
            dims, tin, tout, perm, tag = remap_geometry(r, kind, q)
            o = c.obj(kind, comm, api, dims, tin, tout, perm, r.choice([1, 2, 3]), r.choice([0, 1]))
            opts = dict(collective=r.choice([0, 1]), pack=r.choice([0, 1, 2]))
        c.tags += ["tune" if tune else "transform" if later else "setup", "fft" if fft else "remap"]
        c.op("create", o, 0)
        for k in opts:
            c.op("set", o, k, opts[k])
        top = {FFT3: 110, FFT2: 80, RM3: 22, RM2: 22}[kind] * (8 if tune else 1)
        k = r.randrange(top) if r.random() < 0.7 else r.randrange(8)
        how = 1 if r.random() < 0.25 else 0
        if r.random() < 0.3:
            how, k = how + 2, int(2 ** (4 + 11 * r.random()))      # by size: this reaches the large buffers, which come last
        if r.random() < (0.4 if tune else 0.02):
            how, k = (how & 1) + 4, r.choice([0, 0, 0, 1, 2])      # the array that is to grow
        if later:
            k = k if how >= 2 else r.choice([0, 1, 2, r.randrange(50), r.randrange(400)])
        fail = ["failalloc", o, -1 if r.random() < (0.8 if how >= 4 else 0.1) else r.randrange(q), k, how]      # -1: on every process
        if not later:
            c.op(*fail)
        if tune:
            c.op("tune", o, r.choice([0, 1, -1]), r.choice([1, 2]), r.choice([0.0, 0.02]), r.choice([0, 1]), r.randrange(1 << 20))
        else:
            c.op("setup", o)
        if fft:
            if not opts["memory"]:
                c.op("setupmem", o)
            before = r.random() < 0.5
            if later and before:
                c.op(*fail)
            c.op("compute", o, 1, r.choice([0, 1]), 0, r.randrange(1 << 30))
            if later and not before:
                c.op(*fail)
            c.op("compute", o, -1, r.choice([0, 1]), 0, r.randrange(1 << 30))
        else:
            c.op("remap", o, 1, r.choice([0, 1]), 99, r.randrange(1 << 30))
        c.op("destroy", o)
        return Test(cfg, [c])

    def attribute(self, test, res, bad, run):
        """what also goes wrong when all memory requests succeed is another property's concern"""
        d = test.cases[0].clone()
        d.ops = [o for o in d.ops if o[0] != "failalloc"]
        x = run([Test(test.cfg, [d])])[0]
        return [] if any(self.relevant(test, 0, f) for f in x[0].F) else bad

    def nontrivial(self, test, res):
        return int(res[0].S.get("injected", 0)) > 0 or bool(res[0].F)

    def labels(self, test, res):
        L = Prop.labels(self, test, res)
        if int(res[0].S.get("injected", 0)):
            L.append("ended with a message" if int(res[0].S.get("aborted", 0)) else "coped with the failed request")
        return L


# ---------------------------------------------------------------------------------------------- C21
def meet(a, b):
    n = 1
    for (l, h), (m, k) in zip(a, b):
        n *= max(0, min(h, k) - max(l, m) + 1)
    return n


class C21(Prop):
    id, quick, thorough = "C21", 12000, 150000
    rule = ("2d/3d FFTs and remaps with generated geometry and collective/exchange settings (also left at the default, set several times, changed after setup, set through the C interface or by tune()); the simulated MPI counts, per process, call and single remap, the bytes sent to other "
            "processes in messages and in collectives; compared with the documented pattern for the setting, with the exact off-process overlap of the tilings (remaps), the volume the brick detour cannot avoid (exchange 1), "
            "the sum over the single remaps (transforms), and, step by step, a second instance explicitly given the reported settings. Non-trivial: at least 2 ranks and data went to another process")

    def gen(self, r, i):
        kind = r.choice([FFT3, FFT3, FFT2, FFT2, RM3, RM2])
        p = max(2, nprocs(r, 12))
        c = Case(p, sched(r))
        api = pick(r, [(CPP, 8), (CAPI, 2)])
        if kind in (RM3, RM2):
            dims, tin, tout, perm, tag = remap_geometry(r, kind, p)
            o = c.obj(kind, 0, api, dims, tin, tout, perm, nqty(r, dims, r.choice([1, 2, 3])), r.choice([0, 1]))
            begin_remap(r, c, o, dict(pack=r.choice([0, 1, 2])) if r.random() < 0.15 else None)
            if r.random() < 0.3:
                c.op("set", o, "collective", r.choice([0, 1]))
            for _ in range(r.choice([1, 2])):
                c.op("remap", o, 1, r.choice([0, 1]), 99, r.randrange(1 << 30))
        else:
            dims, tin, tout, perm, tag = fft_geometry(r, kind, p, 600)
            o = c.obj(kind, 0, api, dims, tin, tout, perm)
            opts = rand_opts(r)
            for k in ("collective", "exchange"):
                if r.random() < 0.15:
                    del opts[k]
            tuned = r.random() < 0.15
            t = None
            if tuned:
                c.sched["clock"] = r.choice([0, 0, 1, 5, 6])
                if c.sched["clock"] == 0:        # equal times: the first trial wins; often no time for the packing trials
                    t = dict(flag=r.choice([0, 1, -1]), niter=r.choice([1, 2, 3]), tmax=(r.randint(2, 12) + 0.5) / 512, tflag=r.choice([0, 1]), cseed=r.randrange(1 << 20))
            begin_fft(r, c, o, opts, via="tune" if tuned else "setup", tune=t)
            c.op("get", o)
            w = None
            if r.random() < (0.9 if tuned else 0.2):
                # a second instance that is explicitly given the settings the first one reports
                w = c.obj(kind, 0, CPP, dims, tin, tout, perm)
                c.op("create", w, 0)
                c.op("set", w, "memory", 1)
                c.op("setuplike", w, o)
            if r.random() < 0.3:
                k = r.choice(["collective", "exchange"])
                c.op("set", o, k, r.choice([0, 1, 2] if k == "collective" else [0, 1]))
            same = same_layout(c.objs[o])
            L = [("compute", 1), ("compute", -1), ("remaps", 1), ("remaps", -1), ("steps", 1)] + ([] if same else [("steps", -1)])
            r.shuffle(L)
            for k, d in L:
                c.op(k, o, d, r.choice([0, 1]), 0 if k == "compute" else 99, r.randrange(1 << 30))
            if w is not None:
                for d in [1] if same else [1, -1]:
                    c.op("steps", w, d, r.choice([0, 1]), 99, r.randrange(1 << 30))
                c.op("destroy", w)
        c.tags += ["kind%d" % kind, "in-" + tag[0], "out-" + tag[1], "rel-" + tag[2]]
        c.op("destroy", o)
        return Test(self.cfg(r), [c])

    def relevant(self, test, k, f):
        return False         # what goes wrong otherwise is the concern of other properties

    def extra(self, test, res):
        c, x = test.cases[0], res[0]
        if x.F or not c.objs:
            return []
        ob = c.objs[0]
        mem = c.comms[ob["comm"]]
        fft = ob["kind"] in (FFT3, FFT2)
        nd = nd_of(ob["kind"])
        size = 4 if test.cfg[1] == "s" else 8
        live = dict(collective=2, exchange=0) if fft else dict(collective=1)
        got, g, tw = {}, None, {}
        use = None
        for i, q in enumerate(c.ops):
            if q[0] == "set" and use is None and q[1] == 0:
                live[q[2]] = int(q[3])
            elif q[0] == "setup":
                use = dict(live)
            elif q[0] == "tune":
                use = {}
            elif q[0] == "get" and (i, mem[0]) in x.G and use is not None:
                g = g or x.G[(i, mem[0])]
                if not use and not any(k[0] == "set" and k[2] in ("collective", "exchange") for k in c.ops[[k[0] for k in c.ops].index("tune"):i]):
                    use = dict(collective=int(g["collective"]), exchange=int(g["exchange"]))
            elif (i, mem[0]) in x.T and q[1] != 0:
                tw[int(q[2])] = [x.T[(i, k)] for k in mem]
            elif (i, mem[0]) in x.T:
                got[i] = [x.T[(i, k)] for k in mem]
        if not use or "collective" not in use:
            return []
        cl, ex = use["collective"], use.get("exchange", 0)
        if not fft:
            for i, t in got.items():
                for n, v in enumerate(t):
                    want = sum(meet(ob["tin"][n], b) for m, b in enumerate(ob["tout"]) if m != n) * ob["nqty"] * size
                    if cl == 0 and v[1] or cl == 1 and v[0]:
                        return [("pattern", "remap with collective=%d: rank %d sends %d bytes in messages and %d bytes in collectives" % (cl, n, v[0], v[1]))]
                    if v[0] + v[1] != want:
                        return [("pattern", "remap: rank %d sends %d bytes to other processes, %d bytes of its input tile belong there" % (n, v[0] + v[1], want))]
            return []
        last = nd + 1
        N = 1
        for d in ob["dims"]:
            N *= d
        full = N * 2 * size
        sums = {}
        for i, t in got.items():
            what, d = c.ops[i][0], int(c.ops[i][2])
            where = "%s %s with collective=%d, exchange=%d" % (what, "forward" if d == 1 else "backward", cl, ex)
            if what not in ("compute", "remaps", "steps"):
                continue
            if what == "steps" and d in tw and tw[d] != t:
                n = [u == v for u, v in zip(t, tw[d])].index(False)
                return [("pattern", "%s: rank %d sends (messages, collectives; then per remap) %s, an instance set up with the reported settings %s" % (where, n, t[n], tw[d][n]))]
            for n, v in enumerate(t):
                if (cl == 0 or (cl == 2 and ex == 1)) and v[1] or cl == 1 and v[0]:
                    return [("pattern", "%s: rank %d sends %d bytes in messages and %d bytes in collectives" % (where, n, v[0], v[1]))]
                if what == "steps" and cl == 2 and ex == 0:
                    for s in range(1, last + 1):
                        if v[2 * s] and 1 < s < last or v[2 * s + 1] and s in (1, last):
                            return [("pattern", "%s, remap %d: rank %d sends %d bytes in messages and %d bytes in collectives" % (where, s, n, v[2 * s], v[2 * s + 1]))]
            sums.setdefault(d, []).append((where, [v[0] + v[1] for v in t]))
            if what == "steps":
                for s in range(1, last + 1):
                    vol = sum(v[2 * s] + v[2 * s + 1] for v in t)
                    if vol > full * (2 if ex and 1 < s < last else 1):
                        return [("pattern", "%s, remap %d: %d bytes sent, the grid has %d" % (where, s, vol, full))]
                    if ex and 1 < s < last and g and cl >= 0:
                        low = 0
                        for dim in (s - 2, s - 1):
                            n, b = ob["dims"][dim], int(g["npbrick%d" % (dim + 1)])
                            low += full - full * min(n, -(-n // max(b, 1))) // n
                        if vol < low - 2 * nd:
                            return [("pattern", "%s, remap %d: %d bytes sent, a detour by bricks (%s) needs at least %d" % (where, s, vol, [g["npbrick%d" % (k + 1)] for k in range(nd)], low))]
        for d, L in sums.items():
            for where, v in L[1:]:
                if v != L[0][1]:
                    return [("pattern", "%s sends %s bytes per process, %s sends %s" % (where, v, L[0][0], L[0][1]))]
        return []

    def nontrivial(self, test, res):
        return test.cases[0].np >= 2 and any(v[0] + v[1] for v in res[0].T.values())


ALL = {p.id: p for p in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16, C17, C18, C20, C21)}
