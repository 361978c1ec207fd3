"""E12: the engine executes without memory errors or undefined behaviour.
Monitors: AddressSanitizer and UndefinedBehaviorSanitizer (clang, every
symmetry type, checked containers and matrices) over the inputs of the
regression tests, generated models with random settings, and damaged inputs;
valgrind's memcheck over the ordinary build for decisions, addresses and output
that depend on uninitialized memory."""
import glob, json, os, random, re, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common, build, nrgrun, faults, cases, speccases, damage
from vlib.common import case, viol

ck = common.Check("E12", "exploration",
                  "a case counts if the instrumented engine executed the input (reached the end, or ended with an error message) and its sanitizer output was judged",
                  ["third-party libraries are not instrumented; only errors inside code compiled from this repository are judged under valgrind", "runs are bounded by a time limit"])
ck.min_nontrivial = 30
ASAN = MAIN = None
ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4000:detect_stack_use_after_return=1:strict_init_order=1:symbolize=1:print_summary=1:handle_abort=0",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=0:silence_unsigned_overflow=1", "PMIX_MCA_gds": "hash"}
SIG = {11: "SIGSEGV", 6: "SIGABRT", 8: "SIGFPE", 7: "SIGBUS", 4: "SIGILL"}


def diagnose(p):
    """text of the first sanitizer complaint or None"""
    for t in (p.err, p.out):
        k = t.find("ERROR: AddressSanitizer")
        if k >= 0:
            m = t[k:k + 300].split("\n")[0]
            if not re.search(r"requested allocation size|out of memory|allocation-size-too-big|rss.limit", m):      # an impossible request ends in bad_alloc without the sanitizer
                j = t.find("SUMMARY: ", k)
                return "address", m + (" | " + t[j:j + 300].split("\n")[0] if j >= 0 else "")
        k = t.find(": runtime error: ")
        if k >= 0:
            a = t.rfind("\n", 0, k) + 1
            l = t[a:k + 400].split("\n")[0]
            return "undefined", l[l.rfind("/") + 1:] if "/" in l[:k - a] else l
        k = t.find("Assertion `")
        k = k if k >= 0 else t.find("Assertion '")
        if k >= 0 and "failed" in t[k:k + 2000].split("\n")[0]:
            a = t.rfind("\n", 0, k) + 1
            return "assertion", t[a:a + 400].split("\n")[0]
    if p.rc < 0 and -p.rc in SIG:
        return "signal", SIG[-p.rc]
    if p.rc > 128 and p.rc - 128 in SIG:
        return "signal", SIG[p.rc - 128]
    return None


def execute(d, files, binary, timeout, pre=(), env=None, args=(), mpi=0):
    for n, c in files.items():
        with open(f"{d}/{n}", "wb") as f:
            f.write(c)
    cmd = [*pre, binary, *args]
    if mpi:
        cmd = ["mpirun", "-np", str(mpi), "--oversubscribe", "--allow-run-as-root", *cmd]
    return nrgrun.run(cmd, d, timeout, extra_env=env or ENV)


def judge(key, desc, files, p, extra_obs=None, want_ok=False, arith=False):
    obs = {"runs under ASan+UBSan": 1, "completed": int(p.rc == 0), "ended with an error status": int(p.rc > 0)}
    m = re.findall(r"Iteration (\d+)", p.out)
    obs["NRG iterations executed"] = len(m)
    obs.update(extra_obs or {})
    g = diagnose(p)
    if g and arith and g[0] == "undefined" and re.search(r"integer overflow|outside the range of representable|division by zero|shift exponent|invalid value", g[1]):
        obs["arithmetic overflow with damaged input"] = 1       # not memory corruption
        g = None
    elif g and arith and "FPE" in g[1] and "gmp_divide_by_zero" in p.err:
        obs["arithmetic overflow with damaged input"] = 1       # a number so large that the partition function vanishes
        g = None
    fs = dict(files, **{"stdout.txt": p.out[-30000:], "stderr.txt": p.err[:30000]})
    if g:
        return case(key, True, obs, dict(input=desc), [viol(g[0], f"{desc}: {g[1]}", fs)])
    if p.timeout:
        return case(key, False, obs, inconclusive="timeout")
    if want_ok and p.rc != 0:
        return case(key, True, obs, dict(input=desc), [viol("failed", f"{desc}: valid input: exit status {p.rc}: {(p.err + p.out)[-300:]}", fs)])
    return case(key, p.rc == 0 or bool(p.out.strip() or p.err.strip()), obs, dict(input=desc, status=p.rc))


# ---- inputs of the regression tests ----
def corpus():
    out = []
    for p in sorted(glob.glob(os.path.join(build.REPO, "test", "*", "*", "data"))):
        d = os.path.dirname(p)
        if not os.path.exists(d + "/param") or "/test_long/" in d:
            continue
        fs = {}
        for n in os.listdir(d):
            if os.path.isfile(f"{d}/{n}") and os.path.getsize(f"{d}/{n}") < 3000000 and not n.startswith(("DONE", "log")):
                fs[n] = open(f"{d}/{n}", "rb").read()
        out.append((os.path.relpath(d, os.path.join(build.REPO, "test")), fs))
    return out


CORP = []


def symof(fs):
    m = re.search(rb"^\s*symtype\s*=\s*(\S+)", fs["param"], re.M)
    return m[1].decode() if m else "?"


def shorten(fs, keep):
    """smaller truncation, to bound the run time"""
    t = fs["param"].decode(errors="replace")
    t = re.sub(r"(?m)^\s*keep\s*=\s*(\d+)\s*$", lambda m: f"keep={min(int(m[1]), keep)}", t)
    t = re.sub(r"(?m)^\s*keepmin\s*=\s*(\d+)\s*$", lambda m: f"keepmin={min(int(m[1]), keep)}", t)
    if not re.search(r"(?m)^\s*keep\s*=", t):
        t = t.replace("[param]", f"[param]\nkeep={keep}", 1)
    t = re.sub(r"(?m)^\s*bins\s*=.*$", "", t).replace("[param]", "[param]\nbins=30", 1)
    t = re.sub(r"(?m)^\s*broaden_ratio\s*=.*$", "", t).replace("[param]", "[param]\nbroaden_ratio=1.5", 1)
    t = re.sub(r"(?m)^\s*mats\s*=.*$", "", t).replace("[param]", "[param]\nmats=8", 1)
    return dict(fs, param=t.encode())


def regression(i):
    name, fs = CORP[i]
    fs = shorten(fs, ck.n(30, 120))
    d = common.scratch(ck.tmp, "r")
    p = execute(d, fs, ASAN, ck.n(45, 400))
    shutil.rmtree(d, ignore_errors=True)
    return judge(f"test/{name}", name, fs, p, {f"runs with {symof(fs)}": 1})


# ---- generated models with random settings ----
def knobs(rng, m, sym, cplx):
    """random settings from the whole set of parameters"""
    K = dict(strategy=["all", "kept"], finite="b", dmnrg="b", cfs="b", fdm="b", fdmexpv="b", fdmexpvn=["0", "1", "2", "3", "4"], cfsgt="b", cfsls="b", fdmgt="b", fdmls="b", finitemats="b", dmnrgmats="b", fdmmats="b", dm="b", checkrho="b",
             mats=["1", "5", "0"], NN1="b", NN2even="b", NN2avg="b", NNtanh=["0", "2.0", "10"], goodE=["1.5", "2.5", "10"], reim="b", dumpannotated=["0", "1", "10", "100000"], dumpabs="b", dumpscaled=["false"], dumpgroups="b", grouptol=["1e-6", "0", "1"],
             dumpprecision=["0", "1", "18"], dumpdiagonal=["0", "1", "3", "1000"], reportdiagonal=["0", "1", "2", "100"], reportdiagonallast="b", savebins="b", broaden="b", emin=["1e-3", "-1", "0.1"], emax=["10", "-1", "1"], bins=["1", "10", "100"],
             accumulation=["0", "0.1", "0.01"], linstep=["0", "0.01", "0.1"], discard_trim=["0", "1e-16", "1"], discard_immediately=["0", "1e-16", "0.1"], prec_td=["1", "10", "17"], prec_custom=["1", "17"], prec_xy=["1", "17"], width_td=["1", "25", "100"],
             width_custom=["1", "25"], log=["i", "s", "e", "A", "t", "m", "f", "F", "r", "R", "g", "w", "!", "D", "Y", "Z", "isefrg", "M"], logall="b", silent="b", calc0="b", lastall="b", lastalloverride="b", dumpsubspaces="b", dump_f="b",
             dumpenergies="b", dumpcorr="b", dumpcrit="b", dumpstates="b", dumpenergiesunscaled="b", dumpabsenergies="b", checksumrules="b", h5raw="b", h5all="b", h5last="b", h5ham="b", h5ops="b", h5vectors="b", h5U="b", h5struct="b",
             diag_mode=["serial", "default", "OpenMP", "MPI"], removefiles="b", done="b", fixeps=["0", "1e-15", "1e-3"], keep=["2", "3", "10", "25", "50"], keepenergy=["-1", "0.1", "2", "6"], keepmin=["0", "1", "2"], keepall=["", "0", "1 2", "0 1 2 3"],
             safeguard=["0", "1e-5", "0.3", "100"], safeguardmax=["0", "1", "200"], diag=["dsyev", "dsyevd", "dsyevr"] if not cplx else ["zheev", "zheevd", "zheevr"], diagratio=["1", "0.5", "0.1", "0.01"], restart="b", restartfactor=["2", "1.1", "100"],
             absolute="b", T=["1e-8", "1e-3", "0.1", "10", "1e4"], betabar=["1", "0.46", "1e-3"], bandrescale=["1", "2", "0.5"], saveram="b", chitp_ratio=["-1", "0.5"], chitp=["1", "0.1"], gtp=["0.7", "0.1"], broaden_max=["10", "1"], broaden_min=["1e-3", "-99", "0.1"],
             broaden_ratio=["1.05", "2", "1.5"], broaden_min_ratio=["3", "0.1"], alpha=["0.3", "1", "0.01"], omega0=["-1", "0.1", "1e-10"], omega0_ratio=["1", "0.1"], substeps="b", Ninit=["0", "0", "0", "1"], dumpEscale=["1", "2.5"], data_has_rescaled_energies="b",
             resume="b", preccpp=["100"], project=["", "", "1", "foo"], floquet=["false"] * 8 + ["true"])
    n = rng.choice([2, 6, 15, 40])
    r = {}
    for k in rng.sample(list(K), min(n, len(K))):
        v = K[k]
        r[k] = rng.choice(["true", "false"]) if v == "b" else rng.choice(v)
    return r


def model(rng):
    nimp, nch = rng.choice([(1, 1), (1, 1), (1, 1), (2, 1), (1, 2)])
    o = {}
    for k, pr in (("field", 0.3), ("bx", 0.15), ("pol", 0.15), ("sc", 0.25), ("kappa", 0.5)):
        o[k] = rng.random() < pr
    if o["kappa"] and not o["sc"] or nch > 1:
        o["kappa"] = False
    Nmax = rng.choice([1, 2, 3, 4, 5]) if nch == 1 else rng.choice([1, 2])
    m = cases.general(rng, nimp, nch, Nmax + 1, triplet=False, **o)
    sy = cases.symmetries(m)
    if nch > 1 or nimp > 1:     # those with large subspaces take long
        sy = [x for x in sy if x not in ("NONE", "P", "U1")] or sy[:1]
        Nmax = min(Nmax, 2)
    return m, rng.choice(sy), Nmax


def generated(i):
    import time
    _t0 = time.time()
    rng = ck.rng("gen", i)
    cplx = rng if rng.random() < 0.25 else None
    d = common.scratch(ck.tmp, "g")
    try:
        m, sym, Nmax = model(rng)
        p = dict(keep=rng.choice([12, 25]), bins=10, mats=4, broaden_ratio=2, prec_xy=10)
        by = {}
        if rng.random() < 0.8:
            for par, name, *_ in speccases.spec_list(m, sym):
                by.setdefault(par, []).append(name)
            p.update({par: " ".join(rng.sample(v, min(3, len(v)))) for par, v in by.items()})
            if "specd" in by and rng.random() < 0.3:
                p.update(specgt=p["specd"], speci1t=p["specd"], speci2t=p["specd"])
            if "specs" in by and rng.random() < 0.3:
                p["specchit"] = p["specs"]
        kn = knobs(rng, m, sym, cplx)
        p.update(kn)
        cases.write_case(d, m, sym, Nmax, cases.base_params(m, sym, **p), cplx=cplx)
        fs = {n: open(f"{d}/{n}", "rb").read() for n in ("param", "data")}
        mpi = 2 if rng.random() < 0.08 else 0
        _t1 = time.time()
        r = execute(d, {}, ASAN, ck.n(45, 200), mpi=mpi)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    desc = f"{m.name} {sym}{' complex' if cplx else ''} Nmax={Nmax}{' 2 ranks' if mpi else ''} with {len(kn)} random settings"
    if os.environ.get("VERIF_PROF"):
        print(f"PROF {r.wall:.1f} s {i} {desc} gen {_t1 - _t0:.1f}", flush=True)
    return judge(f"generated/{i}", desc, fs, r, {f"runs with {sym}": 1, "random settings": len(kn)})


# ---- damaged inputs ----
def damaged(a):
    i, j, what, fs = a
    d = common.scratch(ck.tmp, "d")
    p = execute(d, fs, ASAN, 60)
    shutil.rmtree(d, ignore_errors=True)
    return judge(f"damaged/{i}/{j}", what, fs, p, {"damaged inputs": 1}, arith=True)


def semantic(rng, b, n):
    """well-formed but nonsensical numbers: counts, quantum numbers, dimensions, huge and tiny values"""
    tk = [t for t in damage.tokens(b) if t[3] == "num"]
    out = []
    ints = [t for t in tk if re.fullmatch(r"-?\d+", t[2])]
    for _ in range(n):
        s, e, t, k = rng.choice(ints if ints and rng.random() < 0.75 else tk)
        if re.fullmatch(r"-?\d+", t):
            v = int(t)
            g = str(rng.choice([v + 1, v - 1, 0, -v, -1, 2 * v + 1, 1000, 65536, 10 ** 6, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 1, 2 ** 63, -2 ** 31, 10 ** 18]))
        else:
            g = rng.choice(["0", "1e300", "-1e300", "1e-310", "1e20", "-1e20", "-0.0", "12345678"])
        out.append((f"{t!r} (line {b[:s].count(10) + 1}) changed to {g}", b[:s] + g.encode() + b[e:]))
    return out


# ---- uninitialized memory ----
VG = ["valgrind", "--tool=memcheck", "--error-exitcode=0", "--track-origins=no", "--leak-check=no", "--num-callers=30", "--undef-value-errors=yes", "-q", "--log-file=vg.log", "--error-limit=no", "--child-silent-after-fork=yes"]
FRAME = re.compile(r"==\d+==\s+(?:at|by) 0x[0-9A-F]+: (.*)")


def vg_errors(txt):
    """errors whose stack shows code of this repository, before any foreign library that keeps its own state"""
    out = []
    n = 0
    for blk in re.split(r"(?m)^==\d+== $", txt):
        l = [x for x in blk.split("\n") if x.strip()]
        if not l:
            continue
        head = re.sub(r"^==\d+==\s*", "", l[0])
        if not re.match(r"(Conditional jump|Use of uninit|Invalid read|Invalid write|Syscall param|Source and dest|Mismatched|Invalid free|Jump to)", head):
            continue
        n += 1
        fr = [m[1] for m in (FRAME.match(x) for x in l[1:]) if m]
        if any(re.search(r"libmpi|libopen-(rte|pal)|mca_|libpmix|libhwloc|libevent|MPI_Init|MPI_Finalize|dl_init|libucp|libucs|libfabric|libpsm", f) for f in fr):
            continue
        if head.startswith("Syscall param") and any("boost::archive" in f or "HighFive" in f or "H5" in f for f in fr):
            continue
        if any("NRG::" in f for f in fr):
            k = next((f for f in fr if "NRG::" in f), fr[0] if fr else "")
            out.append((head, k[:160], "\n".join(l[:14])))
    return n, out


def memcheck(i):
    rng = ck.rng("vg", i)
    d = common.scratch(ck.tmp, "v")
    try:
        if i % 2 == 0 and CORP:
            small = [c for c in CORP if len(c[1]["data"]) < 30000 and symof(c[1]) in ("QS", "QSZ", "SPSU2", "SPU1", "U1", "ISO", "NONE", "P")]
            name, fs = rng.choice(small)
            fs = shorten(fs, 8)
            desc = name
            for n, c in fs.items():
                open(f"{d}/{n}", "wb").write(c)
        else:
            m, sym, Nmax = model(rng)
            while m.nimp + m.nch > 2:
                m, sym, Nmax = model(rng)
            Nmax = min(Nmax, 3)
            cplx = rng if rng.random() < 0.3 else None
            p = dict(keep=12, bins=5, mats=3, broaden_ratio=2, prec_xy=10, safeguardmax=5)
            by = {}
            for par, nm, *_ in speccases.spec_list(m, sym):
                by.setdefault(par, []).append(nm)
            p.update({par: " ".join(rng.sample(v, min(2, len(v)))) for par, v in by.items()})
            p.update({k: "true" for k in rng.sample(["dmnrg", "fdm", "cfs", "finite", "fdmexpv", "fdmmats", "dumpenergies", "dumpstates", "savebins", "checksumrules", "dumpsubspaces", "dumpabsenergies"], 5)})
            p["diag"] = rng.choice(["default", "dsyevr" if not cplx else "zheevr", "dsyev" if not cplx else "zheev"])
            cases.write_case(d, m, sym, Nmax, cases.base_params(m, sym, **p), cplx=cplx)
            fs = {n: open(f"{d}/{n}", "rb").read() for n in ("param", "data")}
            desc = f"{m.name} {sym} Nmax={Nmax}"
        r = execute(d, {}, MAIN, ck.n(200, 600), pre=VG, env={"OPENBLAS_CORETYPE": "Haswell", "PMIX_MCA_gds": "hash"})
        log = common.slurp(d + "/vg.log", 2000000).decode(errors="replace")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    n, errs = vg_errors(log)
    obs = {"runs under memcheck": 1, "completed under memcheck": int(r.rc == 0), "memcheck reports in foreign libraries": n - len(errs), "iterations under memcheck": len(re.findall(r"Iteration (\d+)", r.out))}
    if r.timeout:
        return case(f"memcheck/{i}", False, obs, inconclusive="timeout")
    vs = []
    if errs:
        h, f, b = errs[0]
        vs.append(viol("uninitialized", f"{desc}: {h} in {f}", dict(fs, **{"valgrind.txt": "\n\n".join(x[2] for x in errs[:20])})))
    return case(f"memcheck/{i}", r.rc == 0 or bool(r.out), obs, dict(input=desc), vs)


def main():
    global ASAN, MAIN
    ASAN = build.engine("casan")
    MAIN = build.engine("main", syms="QS QSZ SPSU2 SPU1 U1 ISO NONE P".split(), name="nrg-some")
    CORP[:] = corpus()
    rng = ck.rng("select")
    # every symmetry type first, then random ones
    bysym = {}
    for i, (n, fs) in enumerate(CORP):
        bysym.setdefault((symof(fs), n.startswith("complex")), []).append(i)
    pick = [rng.choice(v) for _, v in sorted(bysym.items())]
    rest = [i for i in range(len(CORP)) if i not in pick]
    rng.shuffle(rest)
    pick += rest[:ck.n(70, 10 ** 6)]
    pick.sort(key=lambda i: -len(CORP[i][1]["data"]))
    ck.run(regression, pick)
    ck.run(generated, range(ck.n(300, 4000)))
    ck.run(memcheck, range(ck.n(16, 120)))
    todo = []
    small = [i for i in range(len(CORP)) if len(CORP[i][1]["data"]) < 20000]
    for k in range(ck.n(36, 200)):
        r = ck.rng("dam", k)
        if k % 3 == 0:
            fs, desc = faults.inputs(r, r.choice(["mixed", "complex", "td", "gt", "fdm"]), Nmax=3, light=True)
        else:
            desc, fs = CORP[r.choice(small)]
            fs = shorten(fs, 20)
        for j, (w, b) in enumerate(damage.damages(r, fs["data"], ck.n(4, 12)) + semantic(r, fs["data"], ck.n(9, 25))):
            todo.append((k, j, f"{desc}: {w}", dict(fs, data=b)))
    ck.run(damaged, todo)
    ck.finish()


common.main(main)
