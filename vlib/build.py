"""Cached builds of /repo's current working tree (engine, tools, harnesses).

Objects are cached by the hash of what the compiler really sees (the output of
`g++ -E -P`, flags, compiler version), so that comments or unrelated files do
not trigger recompilation, while every semantic edit does.
"""
import hashlib, os, subprocess, sys, threading, time, glob, json
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
NCPU = max(1, min(8, os.cpu_count() or 8))


class BuildError(Exception):
    pass


def _out(cmd):
    return subprocess.run(cmd, shell=True, check=True, capture_output=True, text=True).stdout.strip()


_memo = {}


def mpi_compile():
    if "c" not in _memo:
        _memo["c"] = _out("mpicxx --showme:compile")
    return _memo["c"]


def mpi_link():
    if "l" not in _memo:
        _memo["l"] = _out("mpicxx --showme:link")
    return _memo["l"]


def version(cc):
    if cc not in _memo:
        _memo[cc] = _out(cc + " --version | head -1")
    return _memo[cc]


def inc():
    R = REPO
    return (f"-I{VERIF}/shim -I{R}/c++ -I{R}/c++/symmetry -I{R}/c++/symmetry/coefnew -I{R}/c++/include "
            f"-I{R}/tools -I{R}/tools/common -I{R}/tools/nrgchain -I{R}/tools/adapt "
            f"-isystem /usr/include/eigen3 -isystem /usr/include/hdf5/serial " + mpi_compile())


DEF = ("-DNRG_SYM_BASIC -DNRG_SYM_MORE -DNRG_SYM_ALL -DFMT_HEADER_ONLY -DH5_USE_EIGEN -D_GLIBCXX_ASSERTIONS "
       "-Wno-builtin-macro-redefined -D__TIMESTAMP__=\\\"T\\\" -D__DATE__=\\\"D\\\" -D__TIME__=\\\"T\\\" -w")
LIBS = " -lboost_mpi -lboost_serialization -lopenblas -lgmp -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5 -ldl -lgsl -lgslcblas"

ALLSYMS = ("QS QSZ ISO ISOSZ SPSU2 SPU1 DBLQSZ DBLSU2 DBLISOSZ ISOLR ISOSZLR NONE P PP SL SL3 SPSU2LR SPSU2T "
           "SPU1LR SU2 QSLR QST QSTZ QSZTZ QSZLR QJ U1 SPSU2C3 QSC3").split()
# number-of-seconds guesses, for longest-first scheduling
COST = {"nrg-lib": 60, "sym-QST": 42, "sym-QS": 40, "sym-SPSU2T": 36, "sym-QJ": 36, "sym-ISO": 23, "sym-QSTZ": 22,
        "sym-SPSU2": 21, "sym-SPSU2C3": 21, "sym-QSC3": 21}


def _sha(b):
    if isinstance(b, str):
        b = b.encode()
    return hashlib.sha256(b).hexdigest()


def _tree_stamp():
    """hash of every source that can take part in a build (raw bytes)"""
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "c++"), os.path.join(REPO, "tools"), os.path.join(VERIF, "shim"), os.path.join(VERIF, "harness")):
        for d, dirs, files in os.walk(root):
            dirs.sort()
            if "range-v3" in dirs and d.endswith("include"):
                pass
            for f in sorted(files):
                if f.endswith((".hpp", ".cc", ".h", ".dat", ".inc", ".cpp")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    try:
                        with open(p, "rb") as fh:
                            h.update(fh.read())
                    except OSError:
                        pass
    return h.hexdigest()


_stamp = None
_slock = threading.Lock()


def tree_stamp():
    global _stamp
    with _slock:
        if _stamp is None:
            _stamp = _tree_stamp()
        return _stamp


def _run(cmd, timeout=800):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout)


def compile_obj(src, flags, cc="g++", std="-std=c++20"):
    """returns path of cached object"""
    os.makedirs(CACHE + "/obj", exist_ok=True)
    os.makedirs(CACHE + "/key", exist_ok=True)
    base = f"{cc} {std} {flags} {DEF} {inc()}"
    k1 = _sha("\0".join([version(cc), base, src, tree_stamp(), open(src, "rb").read().hex() if not src.startswith(REPO) else ""]))
    k1f = f"{CACHE}/key/{k1}"
    if os.path.exists(k1f):
        k2 = open(k1f).read().strip()
        o = f"{CACHE}/obj/{k2}.o"
        if os.path.exists(o):
            return o
    r = subprocess.run(f"{base} -E -P {src}", shell=True, capture_output=True)
    if r.returncode != 0:
        raise BuildError(f"preprocessing {src} failed:\n{r.stderr.decode(errors='replace')[-3000:]}")
    k2 = os.path.basename(src).replace(".", "_") + "-" + _sha(version(cc).encode() + b"\0" + (std + flags).encode() + b"\0" + r.stdout)[:40]
    o = f"{CACHE}/obj/{k2}.o"
    if not os.path.exists(o):
        tmp = f"{o}.{os.getpid()}.{threading.get_ident()}.tmp"
        c = _run(f"{base} -c {src} -o {tmp}")
        if c.returncode != 0:
            raise BuildError(f"compiling {src} failed:\n{c.stderr[-3000:]}")
        os.replace(tmp, o)
    with open(f"{k1f}.{os.getpid()}.{threading.get_ident()}", "w") as f:
        f.write(k2)
    os.replace(f"{k1f}.{os.getpid()}.{threading.get_ident()}", k1f)
    return o


def compile_many(jobs):
    """jobs: list of (src, flags, cc). Returns object list in order."""
    order = sorted(range(len(jobs)), key=lambda i: -COST.get(os.path.basename(jobs[i][0])[:-3], 12))
    res = [None] * len(jobs)
    tree_stamp()
    with ThreadPoolExecutor(NCPU) as ex:
        fut = {i: ex.submit(compile_obj, *jobs[i]) for i in order}
        for i in order:
            res[i] = fut[i].result()
    return res


def link(objs, flags, cc="g++", libs=None, name="a.out"):
    os.makedirs(CACHE + "/bin", exist_ok=True)
    libs = (mpi_link() + LIBS) if libs is None else libs
    k = _sha("\0".join([cc, flags, libs] + objs))[:40]
    b = f"{CACHE}/bin/{name}-{k}"
    if not os.path.exists(b):
        tmp = f"{b}.{os.getpid()}.{threading.get_ident()}.tmp"
        c = _run(f"{cc} {flags} {' '.join(objs)} -o {tmp} {libs}")
        if c.returncode != 0:
            raise BuildError(f"linking {name} failed:\n{c.stderr[-3000:]}")
        os.replace(tmp, b)
    return b


VARIANTS = {
    # name: (compiler, flags for nrg-lib/nrg, flags for symmetry TUs, link flags)
    # The weak template instances of nrg-lib.o win at link time, so the dense
    # kernels run optimised although the (huge) symmetry TUs are built at -O0.
    "main": ("g++", "-O1 -fopenmp -DNRG_ENABLE_APP_OPENMP=1", "-O0", "-fopenmp"),
    "asan": ("g++", "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr,null",
             "-O0 -fsanitize=address", "-fsanitize=address,undefined"),
    # clang is the faster compiler for this combination
    "casan": ("clang++", "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr", "-O0 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr",
              "-fsanitize=address,undefined"),
    "tsan": ("g++", "-O1 -g1 -fopenmp -DNRG_ENABLE_APP_OPENMP=1 -fsanitize=thread", "-O0 -fsanitize=thread", "-fsanitize=thread"),
}


def _stubs(missing):
    os.makedirs(CACHE + "/gen", exist_ok=True)
    names = []
    for s in missing:
        names.append(s)
        if s == "ISO":
            names.append("ISO2")
        if s == "ISOLR":
            names.append("ISO2LR")
    body = "#include <memory>\n#include <complex>\n#include <stdexcept>\nnamespace NRG { template<typename S> class Symmetry; class Params;\n"
    body = ('#include "params.hpp"\n#include "symmetry.hpp"\nnamespace NRG {\n')
    for s in names:
        body += f'template <typename S> std::unique_ptr<Symmetry<S>> mk_{s}(const Params &P);\n'
        body += f'template <> std::unique_ptr<Symmetry<double>> mk_{s}(const Params &) {{ throw std::runtime_error("symmetry {s} is not part of this build"); }}\n'
        body += f'template <> std::unique_ptr<Symmetry<std::complex<double>>> mk_{s}(const Params &) {{ throw std::runtime_error("symmetry {s} is not part of this build"); }}\n'
    body += "}\n"
    p = f"{CACHE}/gen/stubs-{_sha(body)[:16]}.cc"
    if not os.path.exists(p):
        with open(p + ".tmp%d" % os.getpid(), "w") as f:
            f.write(body)
        os.replace(p + ".tmp%d" % os.getpid(), p)
    return p


def engine_sources(syms):
    """files of c++/ to compile, tolerant of extra helper .cc files"""
    srcs = sorted(glob.glob(f"{REPO}/c++/*.cc"))
    base = [s for s in srcs if not os.path.basename(s).startswith("sym-") and "openmp_link_anchor" not in s]
    sym = [s for s in srcs if os.path.basename(s).startswith("sym-") and os.path.basename(s)[4:-3] in syms]
    base.sort(key=lambda s: 0 if s.endswith("nrg-lib.cc") else 1)
    return base, sym


def engine(variant="main", syms=None, extra_objs=(), extra_link="", exclude_main=False, extra_src=(), name=None):
    syms = list(ALLSYMS if syms is None else syms)
    cc, f1, f2, lf = VARIANTS["main" if variant == "main-mg" else variant]
    base, sym = engine_sources(syms)
    if exclude_main:
        base = [b for b in base if os.path.basename(b) != "nrg.cc"]
    jobs = [(s, f1, cc) for s in base] + [(s, f1, cc) for s in extra_src] + [(s, f2, cc) for s in sym]
    missing = [s for s in ALLSYMS if s not in syms]
    if missing:
        jobs.append((_stubs(missing), f2, cc))
    if variant == "main-mg":        # the same objects on the instrumented OpenMP runtime
        jobs.append((f"{VERIF}/harness/minigomp.cc", "-O1", cc))
        lf = lf.replace("-fopenmp", "")
    objs = compile_many(jobs)
    return link(list(objs) + list(extra_objs), lf + " " + extra_link, cc=cc, name=name or f"nrg-{variant}")


TOOLS = "adapt binavg broaden bw diag h5write hilb integ intavg kk mats matrix nrgchain resample specmoments tdavg unitary".split()
TOOLSRC = {"matrix": ["matrix/matrix.cc", "matrix/parser.cc"]}
TOOLFLAGS = {
    "plain": ("g++", "-O1", ""),
    "asan": ("g++", "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=undefined",
             "-fsanitize=address,undefined"),
    # as shipped: without assertions
    "rel": ("g++", "-O1 -g1 -DNDEBUG -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=undefined",
            "-fsanitize=address,undefined"),
}


def tool_sources(name):
    if name in TOOLSRC:
        return [f"{REPO}/tools/{s}" for s in TOOLSRC[name]]
    if name == "matrix":
        pass
    d = f"{REPO}/tools/{name}"
    return sorted(glob.glob(d + "/*.cc"))


def tools(names, variant="plain"):
    cc, f, lf = TOOLFLAGS[variant]
    jobs, spans = [], []
    for n in names:
        ss = tool_sources(n)
        spans.append((len(jobs), len(jobs) + len(ss)))
        jobs += [(s, f, cc) for s in ss]
    objs = compile_many(jobs)
    res = {}
    def lk(i):
        a, b = spans[i]
        return link(objs[a:b], lf, cc=cc, name=f"{names[i]}-{variant}")
    with ThreadPoolExecutor(NCPU) as ex:
        for i, b in enumerate(ex.map(lk, range(len(names)))):
            res[names[i]] = b
    return res


def harness(src, flags="-O1", lf="", with_engine_syms=None, cc="g++", name=None, libs=None, more_src=()):
    """program of /verif/harness that includes /repo's headers"""
    p = src if src.startswith("/") else f"{VERIF}/harness/{src}"
    objs = compile_many([(p, flags, cc)] + [(m, flags, cc) for m in more_src])
    return link(objs, lf, cc=cc, libs=libs, name=name or os.path.basename(p).split(".")[0])


def preload(src):
    """shared library of /verif/harness, for LD_PRELOAD"""
    p = f"{VERIF}/harness/{src}"
    k = _sha(version("gcc").encode() + open(p, "rb").read())[:40]
    os.makedirs(CACHE + "/bin", exist_ok=True)
    b = f"{CACHE}/bin/{src.split('.')[0]}-{k}.so"
    if not os.path.exists(b):
        tmp = f"{b}.{os.getpid()}.tmp"
        c = _run(f"gcc -shared -fPIC -O1 -w {p} -o {tmp} -ldl")
        if c.returncode != 0:
            raise BuildError(f"compiling {src} failed:\n{c.stderr[-3000:]}")
        os.replace(tmp, b)
    return b


def prune(max_bytes=6 << 30):
    fs = []
    for d in ("obj", "bin"):
        for f in glob.glob(f"{CACHE}/{d}/*"):
            try:
                st = os.stat(f)
                fs.append((st.st_atime, st.st_size, f))
            except OSError:
                pass
    tot = sum(x[1] for x in fs)
    for a, s, f in sorted(fs):
        if tot <= max_bytes:
            break
        try:
            os.unlink(f)
            tot -= s
        except OSError:
            pass


if __name__ == "__main__":
    t = time.time()
    print(engine("main"))
    print(time.time() - t)
