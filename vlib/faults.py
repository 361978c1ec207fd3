"""Running the engine under the fault-injection preload (harness/fault.c) as an
unprivileged user with only scratch files of its own."""
import os, shutil, signal, subprocess, time
from . import build, nrgrun

UID = 65534
_can = None


def can_drop():
    """may we start processes as another user here?"""
    global _can
    if _can is None:
        try:
            _can = os.geteuid() == 0 and subprocess.run(["/bin/true"], user=UID, group=UID, extra_groups=[], capture_output=True).returncode == 0
        except (OSError, subprocess.SubprocessError):
            _can = False
    return _can


class Lab:
    """a scratch directory with private copies of the binary and the preload (readable by everybody)"""

    def __init__(self, base, binary):
        self.base = base
        self.bin = base + "/nrg.bin"
        self.so = base + "/fault.so"
        shutil.copy(binary, self.bin)
        shutil.copy(build.preload("fault.c"), self.so)
        os.chmod(self.bin, 0o755)
        os.chmod(self.so, 0o755)

    def place(self, d, files):
        """d/c: the directory of the run, d/t: HOME and TMPDIR"""
        for x in (d, d + "/c", d + "/t"):
            os.makedirs(x, exist_ok=True)
        for n, b in files.items():
            p = f"{d}/c/{n}"
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b)
        if can_drop():
            for root, dirs, fs in os.walk(d):
                for x in [root] + [root + "/" + y for y in dirs + fs]:
                    os.chown(x, UID, UID, follow_symlinks=False)

    def run(self, d, args=(), mpi=0, timeout=90, extra=None, **fp):
        for k in range(4):
            r = self.run_once(d, args, mpi, timeout, extra, **fp)
            if not nrgrun.startup_failed(r) or r.hit:
                break
            time.sleep(0.3 * (k + 1))
        return r

    def run_once(self, d, args=(), mpi=0, timeout=90, extra=None, **fp):
        log = d + "/log"
        if os.path.exists(log):
            os.remove(log)
        fp = {"FP_" + k: str(v) for k, v in fp.items()}
        pre = {"LD_PRELOAD": self.so, "FP_DIR": d + "/c", "FP_LOG": log, **fp}
        e = nrgrun.env({"HOME": d + "/t", "TMPDIR": d + "/t", "PMIX_MCA_gds": "hash", **(extra or {})})
        if mpi:
            cmd = ["mpirun", "-np", str(mpi), "--oversubscribe", "--allow-run-as-root"]
            for k, v in pre.items():
                cmd += ["-x", f"{k}={v}"]
            cmd += [self.bin, *args]
        else:
            e.update(pre)
            cmd = [self.bin, *args]
        kw = dict(user=UID, group=UID, extra_groups=[]) if can_drop() else {}
        t = time.time()
        p = subprocess.Popen(cmd, cwd=d + "/c", stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, start_new_session=True, **kw)
        to = False
        try:
            o, er = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            to = True
            os.killpg(p.pid, signal.SIGKILL)
            o, er = p.communicate()
        r = nrgrun.Proc(p.returncode, o.decode(errors="replace"), er.decode(errors="replace"), to, time.time() - t)
        try:
            with open(log, errors="replace") as f:
                r.log = [l.rstrip("\n") for l in f]
        except OSError:
            r.log = []
        r.files, r.dirs = snapshot(d + "/c")
        r.outside = [l for l in r.log if l.startswith("OUTSIDE")]
        r.hit = [l for l in r.log if l.startswith("INJECT")]
        return r


def snapshot(c):
    files, dirs = {}, []
    for root, ds, fs in os.walk(c):
        rel = os.path.relpath(root, c)
        rel = "" if rel == "." else rel + "/"
        dirs += [rel + x for x in ds]
        for x in fs:
            try:
                with open(root + "/" + x, "rb") as f:
                    files[rel + x] = f.read()
            except OSError:
                files[rel + x] = None
    return files, dirs


def ops(log):
    """the counted operations: [(index, kind, path, size)]"""
    out = []
    for l in log:
        t = l.split(" ")
        if len(t) >= 4 and t[0].isdigit():
            out.append((int(t[0]), t[1], " ".join(t[2:-1]), int(t[-1])))
    return out


def inputs(rng, kind, Nmax=4, light=False):
    """a small model and parameters that use many output files; returns {param, data}, description"""
    import tempfile
    from . import cases, speccases
    o = dict(field=rng.random() < 0.3, sc=rng.random() < 0.2)
    m = cases.general(rng, 1, 1, Nmax + 1, Lambda=rng.choice([2.0, 3.0, 4.0]), triplet=False, **o)
    sym = rng.choice(cases.symmetries(m)[:2])
    cplx = rng if kind == "complex" else None
    p = dict(T=repr(m.scale(rng.uniform(1, Nmax))), keepenergy=repr(round(rng.uniform(2.0, 4.0), 3)), keepmin=0, strategy=rng.choice(["all", "kept"]), prec_xy=10, bins=20, mats=4,
             broaden_ratio=3, broaden_min=0.01, broaden_max=2.0)
    by = {}
    for par, name, *_ in speccases.spec_list(m, sym):
        by.setdefault(par, []).append(name)
    p.update({par: " ".join(rng.sample(v, min(3, len(v)))) for par, v in by.items() if par in ("specd", "specs")})
    algos = dict(dmnrg=["dmnrg"], fdm=["fdm", "fdmexpv"], cfs=["cfs"], mixed=["fdm", "cfs", "dmnrg", "finite", "fdmexpv"], td=[], complex=["fdm", "dmnrg"], mats=["fdmmats", "dmnrgmats", "finitemats"],
                 gt=["gt"], ls=["cfsls", "cfsgt", "fdmls", "fdmgt"])[kind]
    for a in algos:
        p[a] = "true"
    if kind == "gt":
        p.pop("gt")
        p.update(specgt=p["specd"], speci1t=p["specd"], specchit=p["specs"], chitp_ratio=1.0)
    if not light:
        p.update({k: "true" for k in rng.sample(["dumpenergies", "dumpabsenergies", "dumpsubspaces", "dumpstates", "savebins"], 3)})
        if rng.random() < 0.5:
            p["dumpannotated"] = 20
    if rng.random() < 0.3:
        p["checksumrules"] = "true"
    with tempfile.TemporaryDirectory() as d:
        cases.write_case(d, m, sym, Nmax, cases.base_params(m, sym, **p), cplx=cplx)
        f = {n: open(f"{d}/{n}", "rb").read() for n in ("param", "data")}
    return f, f"{m.name} {sym} {kind} {p['strategy']}"


def setp(files, **kw):
    """the same input with further parameters"""
    t = files["param"].decode()
    for k, v in kw.items():
        t = "\n".join(l for l in t.split("\n") if l.split("=")[0].strip() != k)
        if v is not None:
            t = t.replace("[param]\n", f"[param]\n{k}={v}\n", 1)
    return dict(files, param=t.encode())
