"""Runs histories on the Python wrapper with recording stub libraries.  argv: path of fftmpi.py, comm kind (int|ptr); tests as JSON lines on stdin.
The wrapper is written for Python 2: the statements that Python 3 does not parse are rewritten, nothing else."""
import ctypes, gc, io, json, os, re, sys, types
import numpy as np


def to3(src):
    try:
        compile(src, "fftmpi.py", "exec")
        return src
    except SyntaxError:
        pass
    lines = src.expandtabs(8).split("\n")
    # join continuation lines of the statements rewritten here
    out, i = [], 0
    while i < len(lines):
        l = lines[i]
        m = re.match(r"^(.*?)(\bprint\b|\braise\b)(\s+|(?=[\"']))(.*)$", l)
        head = m.group(1) if m else ""
        if m and re.match(r"^\s*((if|else|elif|except|try|for|while)\b[^\"'#]*:\s*|[^\"'#]*;\s*)?$", head):
            body = m.group(4)
            while body.rstrip().endswith("\\"):
                i += 1
                body = body.rstrip()[:-1] + " " + lines[i].strip()
            if m.group(2) == "print":
                b = body.strip()
                if b.startswith(">>"):
                    f, _, rest = b[2:].partition(",")
                    out.append("%sprint(%s, file=%s)" % (head, rest.strip(), f.strip()))
                else:
                    out.append("%sprint(%s)" % (head, b))
            else:
                k = re.match(r"^([\w.]+)\s*,\s*(.+)$", body.strip())
                out.append("%sraise %s(%s)" % (head, k.group(1), k.group(2)) if k else l)
        else:
            out.append(re.sub(r"^(\s*except\s+[\w.()\s,]*?[\w.)])\s*,\s*(\w+)\s*:", r"\1 as \2:", l))
        i += 1
    return "\n".join(out)


class Key(bytes):
    """a Python 2 str"""
    def encode(self, *a):
        return self


SIZE = 8 if sys.argv[2] == "ptr" else 4


class Comm:
    def __init__(self, v):
        self.h = ctypes.c_uint64(v) if SIZE == 8 else ctypes.c_uint32(v)


fake = types.ModuleType("mpi4py")
MPI = types.ModuleType("mpi4py.MPI")
MPI.Comm = Comm
MPI.COMM_WORLD = Comm(5)
MPI._sizeof = lambda c: SIZE
MPI._addressof = lambda c: ctypes.addressof(c.h)
fake.MPI = MPI
sys.modules["mpi4py"] = fake
sys.modules["mpi4py.MPI"] = MPI
log = ctypes.CDLL("libvplog.so", ctypes.RTLD_GLOBAL)
log.vp_get.restype = ctypes.c_char_p
log.vp_reset.argtypes = [ctypes.c_uint64]
vlen = ctypes.c_int.in_dll(log, "vp_len")
sys.unraisablehook = lambda a: None
real = sys.stdout


def main():
    mod = types.ModuleType("fftmpi")
    src = to3(open(sys.argv[1], encoding="utf-8", errors="replace").read())
    try:
        exec(compile(src, "fftmpi.py", "exec"), mod.__dict__)
    except SyntaxError as e:
        print(json.dumps(dict(fatal="syntax: %s" % e)), flush=True)
        return
    for line in sys.stdin:
        t = json.loads(line)
        print(json.dumps(dict(begin=t["i"])), file=real, flush=True)
        log.vp_reset(t["seed"])
        dt = np.float32 if t["prec"] == 1 else np.float64
        arrs, views = [], []
        for a in t["arrays"]:
            base = np.arange(a["n"] + a["off"] + 2, dtype=dt) + a["base"]
            v = base[a["off"]:a["off"] + a["n"]]
            if a["kind"] == "2d" and a["n"] % 2 == 0:
                v = v.reshape(2, a["n"] // 2)
            elif a["kind"] == "c" and a["n"] % 2 == 0 and a["off"] % 2 == 0:
                v = v.view(np.complex64 if t["prec"] == 1 else np.complex128)
            arrs.append(base)
            views.append(v)
        objs, res = {}, []
        for op in t["ops"]:
            log.vp_clear()
            sys.stdout = io.StringIO()
            ret = exc = None
            try:
                if op[0] == "new":
                    objs[op[1]] = getattr(mod, op[2])(Comm(op[4]), op[3])
                elif op[0] == "del":
                    o = objs.pop(op[1])
                    del o
                    gc.collect(0)
                else:
                    args, ns = [], []
                    for a in op[3]:
                        if isinstance(a, dict):
                            if "arr" in a:
                                args.append(views[a["arr"]])
                                ns.append(t["arrays"][a["arr"]]["n"])
                            elif "key" in a:
                                args.append(Key(a["key"].encode()))
                            elif "list" in a:
                                args.append([0.0] * a["list"])
                        else:
                            args.append(a)
                    vlen.value = min(ns) if ns else 0
                    ret = getattr(objs[op[1]], op[2])(*args)
            except SystemExit:
                exc = "SystemExit"
            except BaseException as e:
                exc = "%s: %s" % (type(e).__name__, e)
                e = None
            sys.stdout = real
            if isinstance(ret, bytes):
                ret = dict(s=ret.decode("latin1"))
            elif isinstance(ret, str):
                ret = dict(s=ret)
            elif isinstance(ret, (np.ndarray, tuple)):
                ret = [x.item() if hasattr(x, "item") else x for x in ret]
            elif hasattr(ret, "item"):
                ret = ret.item()
            res.append(dict(log=log.vp_get().decode("latin1").split("\n")[:-1], ret=ret, exc=exc, arrays=[[float(x) for x in b] for b in arrs], addr=[v.ctypes.data for v in views]))
        objs.clear()
        print(json.dumps(dict(i=t["i"], res=res)), file=real, flush=True)


main()
