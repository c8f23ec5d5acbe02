"""Builds the library under test (from /repo's working tree) against the MPI simulator, and the case runner."""
import hashlib, os, shutil, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
ROOT = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
NLIBS, NCOPY = 160, 24         # ranks that can be simulated; library copies made ahead (the others on demand)

BASE = ["-O1", "-g1", "-fPIC", "-fno-gnu-unique", "-fno-omit-frame-pointer", "-w",
        "-fsanitize=address,signed-integer-overflow,integer-divide-by-zero,shift-exponent,bounds,vla-bound",
        "-fno-sanitize-recover=all", "-DFFT_MEMALIGN=64"]
COV = ["--coverage", "-DVF_COV"] if os.environ.get("VF_COV") else []   # experiments only: needs a VF_BUILD of its own
BASE += COV
WRAPS = ["exit", "_exit", "malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "memalign", "strdup", "memcpy", "memmove",
         "_Znwm", "_Znam", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm"]
for a in ("fftw", "fftwf"):
    WRAPS += [a + "_plan_many_dft", a + "_plan_dft_1d", a + "_destroy_plan", a + "_execute_dft", a + "_execute"]

# name -> (defines, libs, fortran)
CONFIGS = {
    "kd": (["-DFFT_KISS", "-DFFT_DOUBLE"], [], False),
    "ks": (["-DFFT_KISS", "-DFFT_SINGLE"], [], False),
    "fd": (["-DFFT_FFTW3", "-DFFT_DOUBLE"], ["-lfftw3"], False),
    "fs": (["-DFFT_FFTW3", "-DFFT_SINGLE"], ["-lfftw3f"], False),
    # MKL and FFTW 2 are not installed: the code for them runs against stand-ins of their interfaces (harness/standin)
    "md": (["-DFFT_MKL", "-DFFT_DOUBLE"], [], False),
    "ms": (["-DFFT_MKL", "-DFFT_SINGLE"], [], False),
    "wd": (["-DFFT_FFTW2", "-DFFT_DOUBLE"], [], False),
    "ws": (["-DFFT_FFTW2", "-DFFT_SINGLE"], [], False),
    "kdF": (["-DFFT_KISS", "-DFFT_DOUBLE"], [], True),
    "ksF": (["-DFFT_KISS", "-DFFT_SINGLE"], [], True),
}
F90 = ["fft3d_wrap.f90", "fft2d_wrap.f90", "remap3d_wrap.f90", "remap2d_wrap.f90"]


class BuildError(Exception):
    pass


class InterfaceError(BuildError):
    """the library compiles, but a program using its documented C or Fortran interface no longer does"""


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-3000:])


def _hash(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def lib_sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))


def lib_all_files():
    fs = []
    for pat in ("*.cpp", "*.c", "*.h", "*.hpp", "*.f90", "*.f", "*.inc"):
        fs += glob.glob(os.path.join(REPO, "src", pat))
    return sorted(fs)


def own_files():
    fs = [os.path.join(VERIF, "vf", "build.py")]
    for d in ("sim", "harness", "harness/standin"):
        fs += [f for f in glob.glob(os.path.join(VERIF, d, "*")) if os.path.isfile(f)]
    return sorted(fs)


def _finish(tmp, dest):
    try:
        os.rename(tmp, dest)
    except OSError:
        if not os.path.isdir(dest):
            raise
        shutil.rmtree(tmp, ignore_errors=True)


def build_worker():
    dest = os.path.join(ROOT, "worker-" + _hash(own_files(), "w"))
    exe = os.path.join(dest, "worker")
    if os.path.exists(exe):
        return exe
    tmp = dest + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    inc = ["-I" + os.path.join(VERIF, "sim"), "-I" + os.path.join(VERIF, "harness")]
    jobs = []
    for s in ("sim/sim.cpp", "harness/worker.cpp"):
        o = os.path.join(tmp, os.path.basename(s) + ".o")
        jobs.append(["g++", "-std=c++17", "-O1" if s.startswith("h") else "-O2", "-g1", "-w", "-fsanitize=address", "-fno-omit-frame-pointer", *inc, "-c", os.path.join(VERIF, s), "-o", o])
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(_run, jobs))
    _run(["g++", "-fsanitize=address,undefined", "-Wl,--no-as-needed", "-rdynamic", "-o", os.path.join(tmp, "worker"), os.path.join(tmp, "sim.cpp.o"), os.path.join(tmp, "worker.cpp.o"), "-ldl", "-lpthread"])
    _finish(tmp, dest)
    return exe


def build_config(name):
    """-> library prefix (PREFIX0.so ... PREFIX{NLIBS-1}.so)"""
    defs, libs, fortran = CONFIGS[name]
    dest = os.path.join(ROOT, name + "-" + _hash(lib_all_files() + own_files(), name))
    pre = os.path.join(dest, "lib")
    if os.path.exists(dest):
        return pre
    tmp = dest if COV else dest + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    src = os.path.join(REPO, "src")
    inc = ["-I" + os.path.join(VERIF, "sim"), "-I" + src, "-I" + os.path.join(VERIF, "harness")]
    extra = []
    if name[0] in "mw":
        inc.append("-I" + os.path.join(VERIF, "harness", "standin"))
        extra = [os.path.join(VERIF, "harness", "standin", "standin.cpp")]
    gl = ["-DVF_FORTRAN"] if fortran else []
    jobs, objs = [], []
    for s in lib_sources() + [os.path.join(VERIF, "harness", "glue.cpp")] + extra:
        o = os.path.join(tmp, os.path.basename(s) + ".o"); objs.append(o)
        jobs.append(["g++", *BASE, *defs, *gl, *inc, "-c", s, "-o", o])
    for s in sorted(glob.glob(os.path.join(src, "*.c"))) + [os.path.join(VERIF, "harness", "cshim.c")]:
        o = os.path.join(tmp, os.path.basename(s) + ".o"); objs.append(o)
        jobs.append(["gcc", *BASE, *defs, *inc, "-c", s, "-o", o])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(_run, jobs[:-1]))
    try:
        _run(jobs[-1])
    except BuildError as e:
        raise InterfaceError("C14", str(e))
    if fortran:
        fl = ["-O1", "-g1", "-fPIC", "-w", "-fsanitize=address"]
        for s in [os.path.join(src, f) for f in F90] + [os.path.join(VERIF, "harness", "fshim.f90")]:
            o = os.path.join(tmp, os.path.basename(s) + ".o"); objs.append(o)
            try:
                _run(["gfortran", *fl, *defs, "-J" + tmp, "-I" + tmp, "-c", s, "-o", o], cwd=tmp)
            except BuildError as e:
                if s.startswith(VERIF):
                    raise InterfaceError("C15", str(e))
                raise
        libs = libs + ["-lgfortran"]
    so = os.path.join(tmp, "lib0.so")
    _run(["g++", "-shared", "-fsanitize=address,undefined", "-Wl,-Bsymbolic", *COV[:1], *["-Wl,--wrap=" + w for w in WRAPS if name[0] == "f" or not w.startswith("fftw")], "-o", so, *objs, *libs, "-lm"])
    for i in range(1, NCOPY):
        shutil.copyfile(so, os.path.join(tmp, "lib%d.so" % i))
    for o in ([] if COV else objs):
        os.unlink(o)
    if not COV:
        _finish(tmp, dest)
    return pre


def prune(keep=22):
    try:
        ds = sorted((os.path.join(ROOT, d) for d in os.listdir(ROOT)), key=os.path.getmtime)
        for d in ds[:-keep]:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def build(configs):
    os.makedirs(ROOT, exist_ok=True)
    prune()
    with ThreadPoolExecutor(4) as ex:
        fw = ex.submit(build_worker)
        fc = {c: ex.submit(build_config, c) for c in configs}
        return fw.result(), {c: f.result() for c, f in fc.items()}


if __name__ == "__main__":
    try:
        print(build(sys.argv[1:] or list(CONFIGS)))
    except BuildError as e:
        print(e); sys.exit(2)
