"""C19: the Python wrapper (src/fftmpi.py) against recording stub libraries behind its ctypes calls."""
import hashlib, json, os, random, subprocess, time
from . import build

HERE = os.path.join(build.VERIF, "harness", "py")
KINT = ["collective", "exchange", "pack", "memory", "scale", "remaponly", "npfast1", "ntrial", "zzz", ""]
RULE = ("one case = history of 3-14 method calls on 1-3 instances of FFT3dMPI, FFT2dMPI, Remap3dMPI and Remap2dMPI (create, set, every getter, setup, setup_memory, tune, compute, partial operations, remap, destroy, del) with generated arguments (flat, offset, "
        "two-dimensional and complex numpy arrays of either precision, in and out of place; 4- and 8-byte communicator handles; non-numpy arrays), run on the wrapper with stub libraries that record what the C functions receive and hand back generated values. "
        "Each call must reach the C function of the same name of the same dimension exactly once with exactly its arguments and the instance's own handle, return exactly what the C function produced, and leave results in the caller's arrays; destroy happens exactly once. "
        "Non-trivial: at least 3 calls with arguments or results reached the stubs")


def gen(seed, i):
    r = random.Random("%s:C19:%d" % (seed, i))
    prec, comm = r.choice([1, 2]), r.choice(["int", "ptr"])
    arrays = []

    def arr(n):
        arrays.append(dict(n=n, off=r.choice([0, 0, 2, 3]), kind=r.choice(["flat", "flat", "2d", "c"]), base=r.randrange(1000)))
        return dict(arr=len(arrays) - 1)

    def i32():
        return r.choice([r.randint(-3, 40), r.randint(0, 5000), r.randint(-2 ** 31, 2 ** 31 - 1)])
    ops, live, k = [], [], 0
    n = r.randint(3, 14)
    while len(ops) < n:
        if not live or (len(live) < 3 and r.random() < 0.15):
            cls = r.choice(["FFT3dMPI", "FFT2dMPI", "Remap3dMPI", "Remap2dMPI"])
            p = prec if r.random() < 0.97 else r.choice([0, 3, -1])
            ops.append(["new", k, cls, p, r.getrandbits(47 if comm == "ptr" else 32)])
            if p == prec:
                live.append((k, cls))
            k += 1
            continue
        o, cls = r.choice(live)
        d = 3 if "3d" in cls else 2
        if r.random() < 0.05:
            ops.append(["del", o])
            live.remove((o, cls))
            continue
        if r.random() < 0.04:
            ops.append(["call", o, "destroy", []])
            if r.random() < 0.5:
                ops.append(["del", o])
            live.remove((o, cls))
            continue
        m = r.choice(["set", "get_int", "get_int64", "get_double", "get_string", "get_int_vector", "get_double_vector", "setup", "setup", "setup_memory", "compute", "compute", "only_1d_ffts", "only_remaps", "only_one_remap", "tune", "tune"]
                     if cls[0] == "F" else ["set", "setup", "setup", "remap", "remap"])
        tile = [i32() for _ in range(4 * d)]
        if m == "set":
            a = [dict(key=r.choice(KINT)), i32()]
        elif m.startswith("get"):
            a = [dict(key=r.choice(KINT + ["fft1d", "tfft", "cflags", "memusage"]))]
        elif m == "setup":
            a = ([i32() for _ in range(d)] if cls[0] == "F" else []) + tile + [i32()] + ([i32(), i32()] if cls[0] == "R" else [])
        elif m == "tune":
            a = [i32() for _ in range(d)] + tile + [i32(), i32(), i32(), r.choice([0.0, 2.5, 1e-9, r.random() * 100, 3]), i32()]
        else:
            w = r.randint(1, 8)
            x = arr(w)
            y = x if r.random() < 0.4 else arr(w)
            f = r.choice([1, -1, 1, -1, i32() % 1000])
            a = {"setup_memory": [x, y if y is not x else arr(w)], "compute": [x, y, f], "only_1d_ffts": [x, f], "only_remaps": [x, y, f], "only_one_remap": [x, y, f, r.choice([1, 2, 3, 4, i32()])], "remap": [x, y, arr(r.randint(1, 4)), arr(r.randint(1, 4))]}[m]
            if m == "remap":
                # the stub works on the shortest array
                for q in a:
                    arrays[q["arr"]]["n"] = w
            if r.random() < 0.05:
                j = r.choice([q for q in range(len(a)) if isinstance(a[q], dict)])
                a = list(a)
                a[j] = dict(list=w)
        ops.append(["call", o, m, a])
    for o, cls in live:
        ops.append(["del", o])
    return dict(i=i, seed=r.getrandbits(40) | 1, prec=prec, comm=comm, arrays=arrays, ops=ops)


def fl(x):
    return [float(v) for v in x.split()]


def check(t, res):
    """-> list of failure texts"""
    handle, cls, gone = {}, {}, set()
    cur = [[a["base"] + q for q in range(a["n"] + a["off"] + 2)] for a in t["arrays"]]
    for k, (op, x) in enumerate(zip(t["ops"], res)):
        lg, what = x["log"], "%s" % (op,)
        o = op[1]
        if op[0] == "new":
            if op[3] not in (1, 2):
                if x["exc"] is None or lg:
                    return ["%s: precision %d is not refused (%s)" % (what, op[3], lg)]
                continue
            cls[o] = op[2]
            name = {"F": "fft", "R": "remap"}[op[2][0]] + op[2][-5:-3] + "_create"
            want = "%s %x" % (name, op[4]) + (" %d" % op[3] if op[2][0] == "F" else "") + " -> "
            if x["exc"] or len(lg) != 1 or not lg[0].startswith(want):
                return ["%s: expected one call '%shandle', got %s %s" % (what, want, lg, x["exc"] or "")]
            handle[o] = lg[0].split(" -> ")[1]
            continue
        pre = {"F": "fft", "R": "remap"}[cls[o][0]] + cls[o][-5:-3] + "_"
        h = handle[o]
        if op[0] == "del" or op[2] == "destroy":
            want = [] if o in gone else ["%sdestroy %s" % (pre, h)]
            gone.add(o)
            if x["exc"] or lg != want:
                return ["%s: expected C calls %s, got %s %s" % (what, want, lg, x["exc"] or "")]
            continue
        m, a = op[2], op[3]
        if any(isinstance(q, dict) and "list" in q for q in a):
            if x["exc"] is None or lg:
                return ["%s: an argument that is not a numpy array is not refused (%s)" % (what, lg)]
            continue
        if x["exc"]:
            return ["%s: raised %s (C calls %s)" % (what, x["exc"], lg)]
        if len(lg) != 1:
            return ["%s: made %d C calls: %s" % (what, len(lg), lg)]
        call, _, got = lg[0].partition(" ->")
        got = got.strip()
        arrs = [q["arr"] for q in a if isinstance(q, dict) and "arr" in q]

        def val(j):
            n = min(t["arrays"][q]["n"] for q in arrs)
            return cur[j][t["arrays"][j]["off"]:t["arrays"][j]["off"] + n]

        def hsh(j):
            z = 5381
            for v in val(j):
                z = (z * 33 + int(v)) & (2 ** 64 - 1)
            return "%x" % z
        args = []
        seen = False
        for q in a:
            if isinstance(q, dict) and "key" in q:
                args.append(q["key"])
            elif isinstance(q, dict):
                if m == "setup_memory":
                    args.append("%x" % x["addr"][q["arr"]])
                elif not seen:
                    args.append(hsh(q["arr"]))
                    seen = True
            elif isinstance(q, float):
                args.append("%.17g" % q)
            else:
                args.append(str(q))
        want = " ".join([pre + m, h] + args)
        if call != want:
            return ["%s: C function received '%s', expected '%s'" % (what, call, want)]
        # results
        ret = x["ret"]
        if m.startswith("get"):
            if m == "get_int" or m == "get_int64":
                exp = int(got)
            elif m == "get_double":
                exp = float(got)
            elif got == "NULL":
                exp = None
            elif m == "get_string":
                exp = got[1:-1]
                ret = ret.get("s") if isinstance(ret, dict) else ret
                if exp == "" and ret is None:
                    exp = None
            else:
                exp = fl(got)
                ret = [float(v) for v in ret] if isinstance(ret, list) else ret
            if ret != exp:
                return ["%s: returned %r, the C function produced %r" % (what, ret, exp)]
        elif m in ("setup", "tune"):
            exp = [int(v) for v in got.split()]
            if ret != exp:
                return ["%s: returned %r, the C function produced %r" % (what, ret, exp)]
        # arrays
        if arrs:
            n = min(t["arrays"][q]["n"] for q in arrs)

            def put(j, vs):
                f = t["arrays"][j]["off"]
                cur[j][f:f + len(vs)] = vs
            if m == "setup_memory":
                put(arrs[0], [21])
                put(arrs[1], [22])
            elif m == "only_1d_ffts":
                put(arrs[0], [v + 10 * a[1] + 3 for v in val(arrs[0])])
            elif m == "remap":
                put(arrs[1], [v + 4 for v in val(arrs[0])])
                put(arrs[2], [31])
                put(arrs[3], [32])
            else:
                put(arrs[1], [v + 10 * a[2] + 3 for v in val(arrs[0])])
        if [[float(v) for v in c] for c in cur] != x["arrays"]:
            return ["%s: the caller's arrays hold %s, expected %s" % (what, x["arrays"], cur)]
    return []


def build_stubs():
    out = os.path.join(build.ROOT, "py")
    os.makedirs(out, exist_ok=True)
    for prec in (1, 2):
        for comm in ("int", "ptr"):
            d = os.path.join(out, "%s%d" % (comm, prec))
            os.makedirs(d, exist_ok=True)
            fl = ["-O1", "-fPIC", "-shared", "-w"] + (["-DFFT_SINGLE"] if prec == 1 else []) + (["-DVP_COMM_PTR"] if comm == "ptr" else [])
            for src, lib, ext in (("vplog.c", "libvplog.so", []), ("stub3.c", "libfft3dmpi.so", ["-L" + d, "-lvplog"]), ("stub2.c", "libfft2dmpi.so", ["-L" + d, "-lvplog"])):
                t = os.path.join(d, ".%s.%d" % (lib, os.getpid()))
                p = subprocess.run(["gcc"] + fl + ["-o", t, os.path.join(HERE, src)] + ext, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode:
                    raise build.BuildError(p.stdout)
                os.replace(t, os.path.join(d, lib))
    return out


class Fatal(Exception):
    pass


def run(stubs, tests):
    """-> results by position; None for a test that ended the interpreter"""
    out = [None] * len(tests)
    for prec in (1, 2):
        for comm in ("int", "ptr"):
            idx = [i for i, t in enumerate(tests) if t["prec"] == prec and t["comm"] == comm]
            while idx:
                d = os.path.join(stubs, "%s%d" % (comm, prec))
                env = dict(os.environ, LD_LIBRARY_PATH=d, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
                txt = "".join(json.dumps(dict(tests[i], i=i)) + "\n" for i in idx)
                p = subprocess.run(["python3-vt", os.path.join(HERE, "child.py"), os.path.join(build.REPO, "src", "fftmpi.py"), comm], input=txt, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, timeout=600)
                begun, done = None, set()
                for line in p.stdout.split("\n"):
                    try:
                        r = json.loads(line)
                    except ValueError:
                        continue
                    if "fatal" in r:
                        raise Fatal(r["fatal"])
                    if "begin" in r:
                        begun = r["begin"]
                    else:
                        out[r["i"]] = r["res"]
                        done.add(r["i"])
                if begun is None:
                    raise Fatal("the wrapper cannot be loaded: %s" % (p.stderr[-600:] or p.stdout[-300:]))
                left = [i for i in idx if i not in done]
                if left and left[0] == begun:
                    out[begun] = "the interpreter died (%s)" % p.returncode
                    left = left[1:]
                elif left:
                    raise Fatal("child stopped: %s" % p.stderr[-600:])
                idx = left
    return out


def judge(stubs, tests):
    return [([x] if isinstance(x, str) else check(t, x)) for t, x in zip(tests, run(stubs, tests))]


def shrink(stubs, t, budget=40):
    t0 = time.time()
    best, bad = t, judge(stubs, [t])[0]
    size = max(1, len(t["ops"]) // 2)
    while time.time() - t0 < budget:
        cands = []
        for lo in range(0, len(best["ops"]), size):
            ops = best["ops"][:lo] + best["ops"][lo + size:]
            live, dead, ok = set(), set(), True
            keep = []
            for op in ops:
                if op[0] == "new":
                    if op[3] in (1, 2):
                        live.add(op[1])
                    keep.append(op)
                elif op[1] in live and not (op[1] in dead and op[0] != "del"):
                    keep.append(op)
                    if op[0] == "del":
                        live.discard(op[1])
                    elif op[2] == "destroy":
                        dead.add(op[1])
            if len(keep) < len(best["ops"]):
                cands.append(dict(best, ops=keep))
        hit = None
        for c, b in zip(cands, judge(stubs, cands) if cands else []):
            if b:
                hit = (c, b)
                break
        if hit:
            best, bad = hit
        elif size == 1:
            break
        else:
            size = max(1, size // 2)
    return best, bad


def main(a, OUT):
    t0 = time.time()
    thorough = a.tier == "thorough"
    try:
        stubs = build_stubs()
        if a.replay:
            d = json.load(open(a.replay))
            bad = judge(stubs, [d["test"]])[0]
            print("\n".join("  " + b for b in bad) if bad else "replay passes")
            if bad:
                print("VIOLATION property=C19 replay=%s" % a.replay)
            return 1 if bad else 0
        n = a.count or (200000 if thorough else 24000)
        done = nt = 0
        calls, seen, samples, viol = {}, set(), [], None
        for lo in range(a.start, a.start + n, 4000):
            tests = [gen(a.seed, i) for i in range(lo, min(lo + 4000, a.start + n))]
            import concurrent.futures as cf
            parts = [tests[k::a.jobs] for k in range(a.jobs)]
            with cf.ThreadPoolExecutor(a.jobs) as ex:
                rs = list(ex.map(lambda p: run(stubs, p), parts))
            for part, res in zip(parts, rs):
                for t, x in zip(part, res):
                    done += 1
                    bad = [x] if isinstance(x, str) else check(t, x)
                    if bad and (viol is None or t["i"] < viol[0]["i"]):
                        viol = (t, bad)
                    if isinstance(x, str):
                        continue
                    c = 0
                    for y in x:
                        for l in y["log"]:
                            w = l.split(" ")[0]
                            calls[w] = calls.get(w, 0) + 1
                            c += not w.endswith(("create", "destroy"))
                    if c >= 3:
                        seen.add(hashlib.sha1(json.dumps(t["ops"]).encode()).hexdigest()[:16])
                        if len(samples) < 5:
                            samples.append(dict(index=t["i"], config="%s prec %d" % (t["comm"], t["prec"]), text=json.dumps(t["ops"])[:1500]))
            if viol or time.time() - t0 > (3 * 3600 if thorough else 300):
                break
    except Fatal as e:
        print("HARNESS ERROR: %s" % e)
        return 2
    except build.BuildError as e:
        print("HARNESS ERROR: stubs do not build: %s" % e)
        return 2
    rc = 0
    if viol:
        t, bad = viol
        small, sbad = shrink(stubs, t)
        if sbad:
            bad = sbad
        else:
            small = t
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        body = dict(property="C19", failure=bad, seed=a.seed, index=t["i"], test=small, replay="cd /verif && python3 -m vf.main C19 --replay <this file>")
        path = os.path.join(OUT, "replays", "C19-%s.json" % hashlib.sha1(json.dumps(small).encode()).hexdigest()[:10])
        json.dump(body, open(path, "w"), indent=1)
        print("case %d of seed %d:\n  %s" % (t["i"], a.seed, bad[0]))
        print("VIOLATION property=C19 replay=%s" % path)
        rc = 1
    wall = time.time() - t0
    ev = dict(property="C19", tier="thorough" if thorough else "quick", seed=a.seed, level="exploration", wall_s=round(wall, 2), violations=rc,
              coverage=dict(evaluations=done, distinct_nontrivial=len(seen), rule=RULE, samples=samples, c_calls=dict(sorted(calls.items()))),
              assumptions=["the wrapper's Python 2 statements (print, raise with a comma) are rewritten to Python 3 and keywords are passed as byte strings; nothing else is changed",
                           "mpi4py is a stand-in that provides _sizeof and _addressof; the C functions behave as C14 establishes"])
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    tmp = os.path.join(OUT, "evidence", ".C19.%d" % os.getpid())
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    os.replace(tmp, os.path.join(OUT, "evidence", "C19.json"))
    print("C19 %s: %d histories, %d distinct non-trivial, %.1f s" % ("VIOLATED" if rc else "held", done, len(seen), wall))
    return rc
