"""E08: results do not depend on parallel scheduling.
The same input is run serially, with OpenMP on an instrumented runtime (random
order of iterations, random delays) and on the real one, and with MPI on several
numbers of ranks with random delays in the message passing and the eigensolvers.
Monitors: output files, the eigensolver calls actually executed, the scheduling
log, termination; a ThreadSanitizer build watches for data races."""
import glob, os, re, shutil, struct, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common, build, cases, nrgrun, h5
import numpy as np
from vlib.common import case, viol

ck = common.Check("E08", "exploration",
                  "a case counts if a parallel run with at least two threads or ranks finished and its outputs, its eigensolver calls and its schedule were compared with the serial run",
                  ["uninstrumented libraries (OpenBLAS, HDF5, Open MPI) are race-free"])
NRG = MG = TSAN = DELAY = None
SKIP = {"param", "data", "DONE"}


def corpus():
    out = []
    for d in sorted(glob.glob(build.REPO + "/test/c++*/*") + glob.glob(build.REPO + "/test/complex/*")):
        f = os.path.join(d, "data")
        if os.path.isfile(f) and os.path.isfile(os.path.join(d, "param")) and os.path.getsize(f) < 120000:
            t = open(os.path.join(d, "param")).read()
            if re.search(r"floquet|^\s*resume|project\s*=", t, re.M):
                continue
            sym = re.search(r"^\s*symtype\s*=\s*(\w+)", t, re.M)
            if sym:
                out.append((sym.group(1), open(f).read(60).startswith("# COMPLEX"), d))
    return out


def place(src, d, add, drop=""):
    os.makedirs(d)
    for f in os.listdir(src):
        p = os.path.join(src, f)
        if os.path.isfile(p) and f != "DONE":
            shutil.copy(p, d)
    t = open(d + "/param").read()
    ks = "|".join(["diag", "diagratio", "diag_mode", "diagth", "log", "done"] + list(add))
    t = re.sub(rf"^\s*({ks})\s*=.*$", "", t, flags=re.M)
    t = re.sub(r"^\[param\]\s*$", "[param]\n" + "".join(f"{k}={v}\n" for k, v in add.items()), t, count=1, flags=re.M)
    open(d + "/param", "w").write(t)


def outputs(d):
    r = {}
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if os.path.isfile(p) and f not in SKIP and not f.startswith("dl."):
            r[f] = {k: v for k, v in h5.read(p).items() if not k.startswith("params/")} if f.endswith(".h5") else open(p, "rb").read()
    return r


def nums(name, b):
    if name.endswith(".bin"):
        return None, np.frombuffer(b[:len(b) // 8 * 8], np.float64)
    words, vals = [], []
    for w in re.split(rb"[\s(),]+", b):
        try:
            vals.append(float(w))
            words.append(b"#")
        except ValueError:
            words.append(w)
    return words, np.array(vals)


def compare(A, B):
    """list of (kind, text); also whether everything is identical"""
    V = []
    if set(A) != set(B):
        V.append(("files", f"output files differ: {sorted(set(A) ^ set(B))[:8]}"))
    same = 0
    for f in sorted(set(A) & set(B)):
        if f.endswith(".h5"):
            ha, hb = A[f], B[f]
            if set(ha) != set(hb):
                V.append(("files", f"{f}: datasets differ: {sorted(set(ha) ^ set(hb))[:4]}"))
            for k in sorted(set(ha) & set(hb)):
                if ha[k].shape != hb[k].shape or not np.allclose(ha[k], hb[k], rtol=1e-5, atol=1e-9 * (1e-3 + np.abs(ha[k][np.isfinite(ha[k])]).max(initial=0)), equal_nan=True):
                    V.append(("values", f"{f}: {k} differs"))
            same += not V
            continue
        if A[f] == B[f]:
            same += 1
            continue
        wa, xa = nums(f, A[f])
        wb, xb = nums(f, B[f])
        if wa != wb or len(xa) != len(xb):
            V.append(("content", f"{f}: layout differs ({len(xa)} and {len(xb)} numbers)"))
            continue
        ok = np.isclose(xa, xb, rtol=1e-5, atol=1e-7 * (1e-3 + np.abs(xa[np.isfinite(xa)]).max(initial=0)), equal_nan=True)
        if not ok.all():
            k = int(np.where(~ok)[0][0])
            V.append(("values", f"{f}: {int((~ok).sum())} of {len(xa)} numbers differ, first {xa[k]!r} and {xb[k]!r}"))
    return V, same


def eigs(d):
    c = {}
    for p in glob.glob(d + "/dl.*"):
        for l in open(p):
            w = l.split()
            if len(w) == 2 and w[0] == "eig":
                c[int(w[1])] = c.get(int(w[1]), 0) + 1
    return c


def schedule(out, np_):
    """checks of the printed schedule: (violations, steps, jobs, orders)"""
    V, jobs, steps = [], 0, 0
    parts = re.split(r"nrtasks=|Iteration (?=\d+/\d+)|Iteration (?=\d+\.\d+/)", out)
    for s in parts[1:]:
        js = re.findall(r"Scheduler: job (.*?) \(dim=\d+\) on node (\d+)", s)
        rs = [int(x) for x in re.findall(r"Receiveing results from (\d+)", s)]
        om = re.findall(r"\[OpenMP\] Diagonalizing (.*?) dim=\d+ \(task (\d+)/(\d+), thread (\d+)\)", s)
        n = re.match(r"(\d+) nrnodes=", s)
        if js:
            steps += 1
            jobs += len(js)
            if n is None:
                continue
            if "Restarting" not in s and len(js) != int(n.group(1)):
                V.append(("schedule", f"{len(js)} jobs scheduled for {n.group(1)} subspaces"))
            if "Restarting" not in s and len({j for j, _ in js}) != len(js):
                V.append(("schedule", f"a subspace was scheduled twice: {js}"))
            busy = set()
            for l in s.splitlines():
                m = re.match(r"Scheduler: job (.*?) \(dim=\d+\) on node (\d+)", l)
                if m and int(m.group(2)):
                    k = int(m.group(2))
                    if k in busy or k >= np_:
                        V.append(("schedule", f"job {m.group(1)} was given to node {k}, which is busy or does not exist"))
                    busy.add(k)
                m = re.match(r"Receiveing results from (\d+)", l)
                if m:
                    busy.discard(int(m.group(1)))
        if om:      # the lines of threads may be garbled by other output, so only repetitions count
            steps += 1
            jobs += len(om)
            if "Restarting" not in s and (len({t for _, t, _, _ in om}) != len(om) or len({i for i, _, _, _ in om}) != len(om)):
                V.append(("schedule", f"a subspace was executed twice: {[o[:2] for o in om][:20]}"))
    return V, steps, jobs


def variant(rng, k, d, seed):
    """(label, parameters, command, environment)"""
    dl = dict(LD_PRELOAD=DELAY, DL_LOG=d + "/dl", DL_SEED=str(seed), OMP_WAIT_POLICY="PASSIVE", DL_EIG=str(rng.choice([0, 500, 3000])), DL_MPI=str(rng.choice([0, 50, 300])), DL_H5=str(rng.choice([0, 100])), DL_HIDE=rng.choice(["0", "1"]))
    om = str(rng.choice([1, 2, 3, 5]))
    if k == "serial":
        return "serial", dict(diag_mode="serial"), [NRG], dict(LD_PRELOAD=DELAY, DL_LOG=d + "/dl")
    if k == "omp":
        t = rng.choice([2, 2, 3, 4, 8])
        return f"OpenMP {t} threads (instrumented runtime)", dict(diag_mode="OpenMP", diagth=t), [MG], dict(dl, MG_SEED=str(seed), MG_DELAY=str(rng.choice([0, 100, 1000])), MG_LOG=d + "/dl.mg",
                                                                                                      OMP_NUM_THREADS=om)
    if k == "gomp":
        t = rng.choice([2, 3, 4, 8])
        return f"OpenMP {t} threads (libgomp)", dict(diag_mode="OpenMP", diagth=t), [NRG], dict(dl, OMP_NUM_THREADS=om)
    n = rng.choice([2, 2, 3, 4, 6])
    if rng.random() < 0.3:
        dl.update(DL_SLOW=str(rng.randrange(n)), DL_SLOWUS=str(rng.choice([5000, 20000])))
    return f"MPI {n} ranks", dict(diag_mode=rng.choice(["MPI", "default"])), ["mpirun", "-np", str(n), "--oversubscribe", "--allow-run-as-root", "--output-filename", d + "/mpi:nocopy", NRG], dict(dl, OMP_NUM_THREADS=om)


def group(a):
    i, sym, cplx, src, kinds = a
    rng = ck.rng("group", i)
    name = os.path.relpath(src, build.REPO + "/test") if src else f"generated/{i}"
    base = common.scratch(ck.tmp, "g", i)
    mpi = "mpi" in kinds
    add = dict(Nmax=rng.choice([3, 4] if mpi else [3, 4, 5]), keep=rng.choice([20, 40] if mpi else [30, 60, 100]), log="M(" + rng.choice(["", "", "@", "A"]))
    if rng.random() < 0.3:
        add.update(diag="zheevr" if cplx else "dsyevr", diagratio=round(rng.uniform(0.3, 0.9), 3))
    elif rng.random() < 0.5:
        add.update(diag=rng.choice(["zheev", "zheevd"] if cplx else ["dsyev", "dsyevd"]))
    if rng.random() < 0.5:
        add.update(saveram="true")
    if rng.random() < 0.4 and "mpi" not in kinds:
        add.update(h5raw="true", h5all="true", h5ham="true")
    try:
        if src is None:
            m = cases.general(rng, rng.choice([1, 1, 2]), rng.choice([1, 1, 2]), 4, field=rng.random() < 0.4, triplet=False)
            ss = cases.symmetries(m)
            sym = rng.choice([s for s in ss if s not in ("NONE", "P", "PP")] or ss)
            add.update(Nmax=3)
            sp = "A_d-A_d" if sym in ("QS", "QSZ") else ""
            p = cases.base_params(m, sym, specd=sp, fdm="true", fdmmats="true", finitemats="true", finite="true", dmnrgmats="true", mats=15, T=repr(m.scale(3)), dumpenergies="true", **add)
            src = base + "/src"
            os.makedirs(src)
            cases.write_case(src, m, sym, 3, p, cplx=ck.rng("c", i) if rng.random() < 0.3 else None)
        ref = None
        res = []
        obs = dict(parallel_runs=0, files_identical=0, files_compared=0, eigensolver_calls=0, jobs_in_schedules=0, steps=0)
        vs = []
        for j, k in enumerate(["serial"] + kinds):
            d = f"{base}/{j}"
            label, par, cmd, env = variant(rng, k, d, rng.randrange(1, 10 ** 6))
            place(src, d, dict(add, **par))
            r = nrgrun.run(cmd, d, timeout=60 if j == 0 else 240, extra_env=env)
            if j == 0:
                if r.timeout or r.rc != 0:
                    return case(f"{name}/{i}", False, dict(not_runnable=1), dict(name=name, err=r.err[-200:], out=r.out[-200:]))
                ref = (outputs(d), eigs(d), r.wall)
                continue
            for q in sorted(glob.glob(d + "/mpi/**/std*", recursive=True)):      # one file per rank and stream
                s = open(q, errors="replace").read()
                if q.endswith("err"):
                    r.err += s
                elif "rank.0" in q:
                    r.out = s
            files = dict(cases.case_files(d), stdout=r.out[-30000:], stderr=r.err[-3000:], cmd=" ".join(cmd) + " # " + str(env))
            if r.timeout:
                return case(f"{name}/{i}", False, obs, dict(name=name, label=label), vs, inconclusive=f"{label}: not finished after 240 s (serial {ref[2]:.1f} s)") if ref[2] > 20 else \
                    case(f"{name}/{i}", True, obs, dict(name=name, label=label), vs + [viol("hang", f"{name} {label}: not finished after 240 s, the serial run takes {ref[2]:.1f} s", files)])
            if r.rc != 0:
                vs.append(viol("failed", f"{name} {label}: exit status {r.rc}: {r.err[-300:]}", files))
                continue
            o = outputs(d)
            v, same = compare(ref[0], o)
            vs += [viol(x, f"{name} {label}: {w}", files) for x, w in v[:2]]
            e = eigs(d)
            if e != ref[1]:
                bad = {n: (e.get(n, 0), ref[1].get(n, 0)) for n in set(e) | set(ref[1]) if e.get(n, 0) != ref[1].get(n, 0)}
                vs.append(viol("jobs", f"{name} {label}: eigensolver calls differ from the serial run, dimension: (parallel, serial) {dict(list(bad.items())[:6])}", files))
            ov = [l for p in glob.glob(d + "/dl.*") for l in open(p) if l.startswith("h5overlap")]
            if ov:
                vs.append(viol("h5overlap", f"{name} {label}: {len(ov)} HDF5 calls made while another thread was inside HDF5: {ov[0].strip()}", files))
            np_ = int(cmd[2]) if cmd[0] == "mpirun" else 1
            v, st, jb = schedule(r.out, np_)
            vs += [viol(x, f"{name} {label}: {w}", files) for x, w in v[:1]]
            obs["parallel_runs"] += 1
            obs["files_identical"] += same
            obs["files_compared"] += len(o)
            obs["eigensolver_calls"] += sum(e.values())
            obs["jobs_in_schedules"] += jb
            obs["steps"] += st
            if np_ > 1:
                act = [len(eigs_of(p)) for p in glob.glob(d + "/dl.[0-9]*")]
                obs["runs in which several ranks worked"] = obs.get("runs in which several ranks worked", 0) + int(sum(x > 0 for x in act) > 1)
            if k == "omp" and os.path.exists(d + "/dl.mg"):
                w = open(d + "/dl.mg").read().split()
                obs["instrumented loop iterations"] = obs.get("instrumented loop iterations", 0) + int(w[1])
                obs["parallel regions"] = obs.get("parallel regions", 0) + int(w[2])
                res.append(w[0])
            obs["longest run/s"] = max(obs.get("longest run/s", 0), round(r.wall, 1))
            if os.environ.get("E08_DEBUG"):
                print(name, label, add, env, round(r.wall, 1), round(ref[2], 1), flush=True)
            shutil.rmtree(d, ignore_errors=True)
        obs["distinct OpenMP schedules"] = len(set(res))
        obs[f"runs {sym}"] = obs["parallel_runs"]
        return case(f"{name}/{i}", obs["parallel_runs"] > 0, obs, dict(name=name, sym=sym, **add), vs)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def eigs_of(p):
    return [l for l in open(p) if l.startswith("eig")]


def judged(x):
    """a data race counts if both accesses are made by the engine (possibly inside the C library), not within another library"""
    st = re.split(r"\n\s*\n", x)
    acc = [s for s in st if re.search(r"(?:[Ww]rite|[Rr]ead) of size", s)]
    n = 0
    for s in acc:
        fr = re.findall(r"#\d+ (.*)", s)
        fr = [f for f in fr if not re.search(r"\(lib(tsan|stdc\+\+|c|m)\.so", f)]
        n += bool(fr) and "(nrg-tsan" in fr[0]
    return n >= 1 and n == len(acc)


def races(a):
    i, sym, cplx, src = a
    rng = ck.rng("race", i)
    base = common.scratch(ck.tmp, "t", i)
    name = os.path.relpath(src, build.REPO + "/test") if src else f"generated/{i}"
    try:
        add = dict(Nmax=3, keep=rng.choice([20, 40]), diag_mode="OpenMP", diagth=rng.choice([2, 3, 4]), log=rng.choice(["", "M(", "(@A"]))
        if rng.random() < 0.4:
            add.update(h5raw="true", h5all="true", h5ham="true")
        if src is None:
            m = cases.general(rng, 1, 1, 3, field=rng.random() < 0.4)
            sym = rng.choice([s for s in cases.symmetries(m) if s in TSYM])
            sp = "A_d-A_d"
            p = cases.base_params(m, sym, specd=sp, fdm="true", fdmmats="true", finitemats="true", finite="true", dmnrgmats="true", mats=7, T=repr(m.scale(2)), **dict(add, Nmax=2))
            src = base + "/src"
            add["Nmax"] = 2
            os.makedirs(src)
            cases.write_case(src, m, sym, 2, p, cplx=ck.rng("c", i) if rng.random() < 0.4 else None)
        d = base + "/0"
        place(src, d, add)
        r = nrgrun.run([TSAN], d, timeout=150, extra_env=dict(PMIX_MCA_gds="hash", TSAN_OPTIONS="exitcode=0:halt_on_error=0:report_signal_unsafe=0:detect_deadlocks=0:history_size=4", MG_SEED=str(rng.randrange(1000)), MG_DELAY="50",
                                                              MG_LOG=base + "/mg", OMP_NUM_THREADS=str(rng.choice([1, 2, 3]))))
        if r.timeout:
            return case(f"race/{name}/{i}", False, inconclusive="timed out")
        files = dict(cases.case_files(d), stderr=r.err[-20000:], stdout=r.out[-3000:])
        rep = re.findall(r"WARNING: ThreadSanitizer: (data race.*?)(?=\n={10}|\Z)", r.err, re.S)
        vs = []
        other = len(rep)
        rep = [x for x in rep if judged(x)]
        other -= len(rep)
        for x in rep[:2]:
            loc = re.findall(r"#\d+ (\S+).*? (\S+:\d+)", x)
            vs.append(viol("race", f"{name}, {sym}, log={add['log']!r}: {x.splitlines()[0]}: {loc[:4]}", files))
        if r.rc != 0 and not rep:
            return case(f"race/{name}/{i}", False, dict(not_runnable=1), dict(err=r.err[-300:]))
        w = open(base + "/mg").read().split() if os.path.exists(base + "/mg") else ["", 0, 0, 0]
        return case(f"race/{name}/{i}", int(w[1]) > 0, {"TSan runs": int(int(w[1]) > 0), "TSan loop iterations": int(w[1]), "TSan parallel regions": int(w[2]), "TSan reports inside libraries": other}, dict(name=name, sym=sym, **add), vs)
    finally:
        shutil.rmtree(base, ignore_errors=True)


TSYM = ["QS", "QSZ", "SPSU2"]


def failing(i):
    """a step that cannot be performed: every rank ends, with an error"""
    rng = ck.rng("fail", i)
    base = common.scratch(ck.tmp, "f", i)
    try:
        m = cases.general(rng, 1, 1, 4)
        bad = rng.choice([dict(diag="zheev"), dict(diag="nonsense"), dict(diag="cuda")])
        p = cases.base_params(m, "QS", **bad)
        d = base + "/0"
        os.makedirs(d)
        cases.write_case(d, m, "QS", 3, p)
        n = rng.choice([2, 3, 4])
        r = nrgrun.run(["mpirun", "-np", str(n), "--oversubscribe", "--allow-run-as-root", NRG], d, timeout=120)
        files = dict(cases.case_files(d), stdout=r.out[-3000:], stderr=r.err[-3000:])
        vs = []
        if r.timeout:
            vs.append(viol("hang", f"MPI on {n} ranks with {bad}: still running after 120 s", files))
        elif r.rc == 0 or os.path.exists(d + "/DONE"):
            vs.append(viol("success", f"MPI on {n} ranks with {bad}: exit status {r.rc}, DONE {os.path.exists(d + '/DONE')}", files))
        return case(f"fail/{i}", True, {"failing MPI runs": 1}, dict(bad=bad, ranks=n, rc=r.rc), vs)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    global NRG, MG, TSAN, DELAY
    NRG = build.engine("main")
    MG = build.engine("main-mg")
    DELAY = build.preload("delay.c")
    if os.environ.get("VERIF_CASE"):
        TSAN = build.engine("tsan", syms=TSYM, extra_objs=[build.compile_obj(build.VERIF + "/harness/minigomp.cc", "-O1 -g1 -fsanitize=thread")])
        print(eval(os.environ["VERIF_CASE"]))
        return
    C = corpus()
    by = {}
    for s, c, d in C:
        by.setdefault((s, c), []).append(d)
    rng = ck.rng("pick")
    pick = []
    for s in sorted(by):
        rng.shuffle(by[s])
        pick += [(s[0], s[1], d) for d in by[s][:ck.n(1, 6)]]
    rng.shuffle(pick)
    pick = pick[:ck.n(24, 400)]
    gen = ck.n(8, 200)
    jobs = [(i, s, c, d, ["omp", "gomp", "omp"]) for i, (s, c, d) in enumerate(pick)] + [(1000 + i, None, None, None, ["omp", "gomp", "omp"]) for i in range(gen)]
    ck.run(group, jobs, label="OpenMP")
    jobs = [(5000 + i, s, c, d, ["mpi", "mpi"]) for i, (s, c, d) in enumerate(pick)] + [(6000 + i, None, None, None, ["mpi", "mpi"]) for i in range(gen)]
    ck.run(group, jobs, workers=3, label="MPI")
    ck.run(failing, range(ck.n(2, 12)), workers=2)
    try:
        TSAN = build.engine("tsan", syms=TSYM, extra_objs=[build.compile_obj(build.VERIF + "/harness/minigomp.cc", "-O1 -g1 -fsanitize=thread")])
    except build.BuildError as e:
        if "undefined reference" not in str(e):
            raise
        ck.extra["tsan"] = "not built: " + str(e)[-300:]
    if TSAN:
        pk = [p for p in C if p[0] in TSYM]
        rng.shuffle(pk)
        ck.run(races, [(i, *p) for i, p in enumerate(pk[:ck.n(8, 60)])] + [(500 + i, None, None, None) for i in range(ck.n(8, 100))])
    ck.finish()


common.main(main)
