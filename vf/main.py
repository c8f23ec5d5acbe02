"""Driver: python3 -m vf.main ID [--tier quick|thorough] [--seed N] [--count N] [--replay FILE]

Generates the property's cases, runs them on the library built from /repo's working tree, judges them with the property's
oracle, shrinks a failure, and writes evidence/ID.json.  Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: the check itself failed."""
import argparse, hashlib, json, multiprocessing, os, random, subprocess, sys, time, traceback
from . import build
from .props import ALL, Test
from .shrink import shrink

VERIF = build.VERIF
OUT = os.environ.get("VF_OUT", VERIF)      # evidence/ and replays/ go here
ENV = dict(os.environ, ASAN_OPTIONS="detect_odr_violation=0:detect_stack_use_after_return=0:detect_leaks=0:max_malloc_fill_size=1000000000:allocator_may_return_null=1:handle_segv=1",
           UBSAN_OPTIONS="print_stacktrace=1", OMP_NUM_THREADS="1")
CPU_LIMIT = 20


class HarnessError(Exception):
    pass


class Res:
    def __init__(self):
        self.G, self.W, self.U, self.M, self.C, self.T, self.H, self.S, self.F = {}, {}, {}, {}, {}, {}, {}, {}, []
        self.done = False


def parse(out, n):
    res, cur = [Res() for _ in range(n)], None
    for line in out.split("\n"):
        if not line:
            continue
        w = line.split(" ")
        t = w[0]
        if t == "CASE":
            cur = res[int(w[1])]
        elif t == "DONE":
            cur.done = True
        elif cur is None:
            continue
        elif t == "S":
            cur.S.update(x.split("=", 1) for x in w[1:] if "=" in x)
        elif t == "F":
            cur.F.append((w[1], int(w[2]), int(w[3]), " ".join(w[4:])))
        elif t == "G":
            cur.G[(int(w[1]), int(w[2]))] = dict(x.split("=", 1) for x in w[3:] if "=" in x)
        elif t == "H":
            cur.H[(int(w[1]), int(w[2]))] = w[3]
        elif t == "W":
            cur.W[(int(w[1]), int(w[2]))] = w[3]
        elif t == "U":
            cur.U[(int(w[1]), int(w[2]))] = w[3:]
        elif t == "M":
            cur.M[(int(w[1]), int(w[2]))] = [int(x) for x in w[3:]]
        elif t == "T":
            cur.T[(int(w[1]), int(w[2]))] = [int(x) for x in w[3:]]
        elif t == "C":
            cur.C[(int(w[1]), int(w[2]))] = [int(x) for x in w[3:]]
    return res


def run_cases(worker, prefix, cases, group):
    """run cases of one build configuration, restarting the worker should it die; after a time-out only the cases of the same test still run"""
    out = [None] * len(cases)
    start, deaths, end = 0, 0, len(cases)
    while start < end:
        part = cases[start:end]
        nl = max(c.np for c in part)
        txt = "".join(c.text(i) for i, c in enumerate(part))
        p = subprocess.run([worker, prefix, str(nl), str(CPU_LIMIT)], input=txt, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=ENV)
        res = parse(p.stdout, len(part))
        k = 0
        while k < len(part) and res[k].done:
            out[start + k] = res[k]
            k += 1
        start += k
        if p.returncode == 77:
            while end > start and group[end - 1] != group[start - 1]:
                end -= 1
        elif start < end:
            deaths += 1
            if deaths > 3:
                raise HarnessError("worker ended with status %s at case %d: %s" % (p.returncode, start, p.stderr[-500:]))
    return out


def run_tests(built, tests):
    """-> list of result lists (None for a test that was left out after a time-out)"""
    worker, pre = built
    out = [None] * len(tests)
    byc = {}
    for i, t in enumerate(tests):
        byc.setdefault(t.cfg, []).append(i)
    for cfg, idx in byc.items():
        cases = [c for i in idx for c in tests[i].cases]
        rs = run_cases(worker, pre[cfg], cases, [i for i in idx for c in tests[i].cases])
        k = 0
        for i in idx:
            n = len(tests[i].cases)
            out[i] = rs[k:k + n] if all(y is not None for y in rs[k:k + n]) else None
            k += n
    return out


def chunk_job(a):
    pid, seed, lo, hi, built, deadline = a
    P = ALL[pid]()
    tests = []
    if time.time() > deadline:
        return dict(n=0, late=hi - lo)
    try:
        for i in range(lo, hi):
            r = random.Random("%s:%s:%d" % (seed, pid, i))
            tests.append(P.make(r, i))
        res = run_tests(built, tests)
        d = dict(n=len(tests), late=0, cases=sum(len(t.cases) for t in tests), nontrivial=[], labels={}, fails=[], samples=[], ratio=0.0, sums={})
        for i, (t, x) in enumerate(zip(tests, res)):
            if x is None:
                d["n"] -= 1
                d["late"] += 1
                d["cases"] -= len(t.cases)
                continue
            bad = P.check(t, x)
            if bad and bad[0][0] != "badcase":
                bad = P.attribute(t, x, bad, lambda ts: run_tests(built, ts))
            if bad:
                d["fails"].append((lo + i, t.to_json(), bad[:5]))
            for y in x:
                for k in ("msgs", "colls", "reorder", "syncblocks", "choices", "dataops"):
                    d["sums"][k] = d["sums"].get(k, 0) + int(y.S.get(k, 0))
                d["cpu"] = max(d.get("cpu", 0.0), float(y.S.get("cpu", 0) or 0))
                d["ratio"] = max(d["ratio"], float(y.S.get("ratio", 0) or 0))
            if P.nontrivial(t, x):
                d["nontrivial"].append(hashlib.sha1(t.key().encode()).hexdigest()[:16])
                if len(d["samples"]) < 1:
                    d["samples"].append(dict(index=lo + i, config=t.cfg, text=t.cases[0].text("s")[:1500]))
            for l in P.labels(t, x):
                d["labels"][l] = d["labels"].get(l, 0) + 1
        return d
    except HarnessError as e:
        return dict(error=str(e))
    except Exception:
        return dict(error=traceback.format_exc())


def known():
    """open findings: list of dicts with property, kind and match (substring of the failure message or null)"""
    out = []
    try:
        for line in open(os.path.join(VERIF, "known-findings.jsonl")):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("status") == "open":
                    out.append(d)
    except FileNotFoundError:
        pass
    return out


def judge(built, P, test):
    return judge_all(built, P, [test])[0]


def judge_all(built, P, tests):
    out = []
    for t, x in zip(tests, run_tests(built, tests)):
        if x is None:
            out.append([])
            continue
        bad = P.check(t, x)
        if bad and bad[0][0] != "badcase":
            bad = P.attribute(t, x, bad, lambda ts: run_tests(built, ts))
        out.append(bad)
    return out


def write_replay(pid, test, bad, seed, index, small):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(property=pid, failure=[list(b) for b in bad], seed=seed, index=index, shrunk=small, test=test.to_json(), text=[c.text(k) for k, c in enumerate(test.cases)],
                replay="cd /verif && python3 -m vf.main %s --replay <this file>" % pid)
    s = json.dumps(body, indent=1)
    f = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha1(json.dumps(body["test"]).encode()).hexdigest()[:10]))
    with open(f, "w") as fh:
        fh.write(s + "\n")
    return f


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--count", type=int, default=0)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--no-shrink", action="store_true")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 8))
    a = ap.parse_args()
    t0 = time.time()
    pid = a.id
    if pid == "C19":
        from . import pyprop
        return pyprop.main(a, OUT)
    P = ALL[pid]()
    try:
        cfgs = sorted(set(P.configs))
        if a.replay:
            d = json.load(open(a.replay))
            test = Test.from_json(d["test"])
            cfgs = [test.cfg]
        built = build.build(cfgs)
    except build.InterfaceError as e:
        print("a program using the documented interface no longer compiles:\n%s" % e.args[1])
        if e.args[0] != pid:
            return 2
        path = a.replay
        if not path:
            path = os.path.join(OUT, "replays", "%s-interface.json" % pid)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            json.dump(dict(property=pid, interface=e.args[1], test=Test(cfgs[0], [], {}).to_json()), open(path, "w"))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    except build.BuildError as e:
        print("the library does not build:\n%s" % e)
        return 2
    tb = time.time() - t0
    if a.replay:
        bad = judge(built, P, test) if test.cases else []
        for b in bad:
            print("  %s: %s" % tuple(b))
        if bad:
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        print("replay passes")
        return 0
    thorough = a.tier == "thorough"
    n = a.count or (P.thorough if thorough else P.quick)
    cap = (3 * 3600 if thorough else 300)
    deadline = t0 + cap
    step = max(4, min(120 if not thorough else 250, n // (a.jobs * 6) + 1))
    jobs = [(pid, a.seed, lo, min(lo + step, a.start + n), built, deadline) for lo in range(a.start, a.start + n, step)]
    tot = dict(n=0, late=0, cases=0)
    seen, labels, samples, fails, sums, ratio, errors = set(), {}, [], [], {}, 0.0, []
    kf = [k for k in known() if k["property"] == pid]
    hit = {}
    with multiprocessing.Pool(a.jobs) as pool:
        for d in pool.imap_unordered(chunk_job, jobs):
            if "error" in d:
                errors.append(d["error"])
                break
            tot["n"] += d["n"]
            tot["late"] += d["late"]
            if not d["n"]:
                continue
            tot["cases"] += d["cases"]
            seen.update(d["nontrivial"])
            for k, v in d["labels"].items():
                labels[k] = labels.get(k, 0) + v
            for k, v in d["sums"].items():
                sums[k] = sums.get(k, 0) + v
            ratio = max(ratio, d["ratio"])
            sums["longest_case_cpu_s"] = max(sums.get("longest_case_cpu_s", 0.0), d.get("cpu", 0.0))
            samples += d["samples"]
            new = []
            for f in d["fails"]:
                m = [k for k in kf if all(b[0] == k["kind"] and (not k.get("match") or k["match"] in b[1]) for b in f[2])]
                if m:
                    hit[m[0]["what"]] = hit.get(m[0]["what"], 0) + 1
                else:
                    new.append(f)
            fails += new
            if fails and not a.keep_going:
                break
        pool.terminate()
    if errors:
        print("HARNESS ERROR: %s" % errors[0])
        return 2
    # confirm and shrink
    confirmed, unrep = [], []
    fails.sort(key=lambda f: f[0])
    for idx, tj, bad in fails[:8] if not a.keep_going else fails[:40]:
        test = Test.from_json(tj)
        if any(b[0] == "badcase" for b in bad):
            print("HARNESS ERROR: generated case %d is not executable: %s" % (idx, bad))
            return 2
        if a.keep_going:
            print("FAIL index %d cfg %s: %s" % (idx, test.cfg, bad[:2]))
        again = [bool(judge(built, P, test)) for _ in range(2)]
        if any(again):
            confirmed.append((idx, test, bad))
            if not a.keep_going:
                break
        else:
            unrep.append((idx, bad))
    rc = 0
    if confirmed:
        rc = 1
        idx, test, bad = confirmed[0]
        small = test
        if not a.no_shrink:
            def fn(ts):
                try:
                    return judge_all(built, P, ts)
                except HarnessError:
                    return [[] for _ in ts]
            small, bad = shrink(P, test, bad, fn, 60 if not thorough else 180)
        path = write_replay(pid, small, bad, a.seed, idx, small is not test)
        print("case %d of seed %d, build %s:" % (idx, a.seed, small.cfg))
        for b in bad[:3]:
            print("  %s: %s" % tuple(b))
        for c in small.cases[:2]:
            print("".join("    " + l + "\n" for l in c.text(0).strip().split("\n")[:40]), end="")
        print("VIOLATION property=%s replay=%s" % (pid, path))
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for idx, bad in unrep:
        print("note: case %d failed once and passed when repeated: %s" % (idx, bad[:1]))
    wall = time.time() - t0
    samples.sort(key=lambda s: s["index"])
    ev = dict(property=pid, tier="thorough" if thorough else "quick", seed=a.seed, level="exploration", wall_s=round(wall, 2), violations=len(confirmed),
              coverage=dict(evaluations=tot["cases"], tests=tot["n"], distinct_nontrivial=len(seen), rule=P.rule, samples=samples[:5], labels=dict(sorted(labels.items())),
                            simulated=sums, worst_error_over_tolerance=ratio, skipped_for_time=tot["late"], unreproducible=len(unrep), known_findings_hit=hit, build_s=round(tb, 2)),
              assumptions=["MPI is the deterministic simulator in /verif/sim (MPI-standard semantics: non-overtaking per pair and tag, arbitrary buffering and completion order)",
                           "a correct FFT has relative L2 error below eps*(3+1.2*log2 N) against a long-double reference"])
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    tmp = os.path.join(OUT, "evidence", ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    os.replace(tmp, os.path.join(OUT, "evidence", pid + ".json"))
    print("%s %s: %d tests, %d executions, %d distinct non-trivial, %.1f s (build %.1f s), worst error/tolerance %.2f" % (pid, "VIOLATED" if rc else "held", tot["n"], tot["cases"], len(seen), wall, tb, ratio))
    if tot["n"] < min(n, 50) and not rc:
        print("HARNESS ERROR: too few cases ran")
        return 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
