"""Shared machinery of the checks: seeds and tiers, case execution, verdicts,
known findings, replay directories, evidence files, exit codes.

A case function returns a dict
   key         string identifying the case (distinctness is counted by it)
   nontrivial  the monitors really observed what the rule asks for
   observed    {counter: number} of monitored events (summed into the evidence)
   sample      JSON-able description of the case
   violations  list of {kind, what, files: {name: text|bytes}}
   inconclusive  optional text: the case gave no verdict (time-out, resource)
"""
import hashlib, json, multiprocessing as mp, os, random, shutil, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
NCPU = max(1, min(8, os.cpu_count() or 8))


def case(key, nontrivial=True, observed=None, sample=None, violations=None, inconclusive=None):
    return dict(key=key, nontrivial=nontrivial, observed=observed or {}, sample=sample, violations=violations or [],
                inconclusive=inconclusive)


def viol(kind, what, files=None):
    return dict(kind=kind, what=what, files=files or {})


_fn = None
_ctx = None


def _work(a):
    i, c = a
    try:
        return i, _fn(c), None
    except Exception:
        return i, None, traceback.format_exc()


class Check:
    def __init__(self, pid, level, rule, assumptions=()):
        self.pid, self.level, self.rule, self.assumptions = pid, level, rule, list(assumptions)
        self.t0 = time.time()
        self.tier = "thorough" if "thorough" in sys.argv[1:] or os.environ.get("VERIF_TIER", "quick") == "thorough" else "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
        self.results = []
        self.errors = []
        self.skipped = 0
        self.budget = float(os.environ.get("VERIF_BUDGET", 3000 if self.thorough else 480))
        self.min_nontrivial = 2
        self.extra = {}
        self.tmp = tempfile.mkdtemp(prefix=f"vf-{pid}-", dir=os.environ.get("VERIF_TMP", "/tmp"))
        os.chmod(self.tmp, 0o755)
        kf = os.path.join(VERIF, "known_findings.json")
        self.known = []
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf)).get("findings", []) if k["property"] == pid]
        self.fired = {}
        self.reported = 0
        rp = os.path.join(VERIF, "evidence", "replay", pid)
        shutil.rmtree(rp, ignore_errors=True)
        self.rp = rp

    def rng(self, *tag):
        return random.Random(f"{self.seed}/{self.pid}/" + "/".join(str(t) for t in tag))

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def left(self):
        return self.budget - (time.time() - self.t0)

    def run(self, fn, cases, workers=NCPU, label=""):
        """execute all cases in forked workers; results are collected in order"""
        global _fn
        _fn = fn
        cases = list(cases)
        t = time.time()
        done = 0
        if not cases:
            return []
        out = [None] * len(cases)
        ctx = mp.get_context("fork")
        with ctx.Pool(min(workers, len(cases))) as pool:
            it = pool.imap_unordered(_work, list(enumerate(cases)))
            while done < len(cases):
                try:
                    i, r, err = it.next(timeout=max(1.0, self.left()))
                except mp.TimeoutError:
                    self.skipped += len(cases) - done
                    pool.terminate()
                    break
                done += 1
                if err:
                    self.errors.append(err)
                    continue
                out[i] = r
                for q in (r if isinstance(r, list) else [r]):
                    if q is not None:
                        self.add(q)
        print(f"[{self.pid}] {label or fn.__name__}: {done}/{len(cases)} cases in {time.time() - t:.1f} s", flush=True)
        return out

    def add(self, r):
        self.results.append(r)
        for v in r["violations"]:
            self.report(v, r)

    def report(self, v, r):
        ident = f"{v['kind']}:{r['key']}"
        for k in self.known:
            if k["match"] == ident or (k.get("kind") == v["kind"] and all(s in ident + " " + v["what"] for s in k.get("contains", ["\0"]))):
                if k["match"] not in self.fired:
                    print(f"KNOWN-FINDING: property={self.pid} {k['what']}", flush=True)
                self.fired[k["match"]] = True
                return
        self.reported += 1
        if self.reported > int(os.environ.get("VERIF_MAXREP", 12)):
            return
        d = os.path.join(self.rp, hashlib.sha256(ident.encode()).hexdigest()[:10])
        os.makedirs(d, exist_ok=True)
        for name, c in v["files"].items():
            p = os.path.join(d, name.replace("/", "_"))
            with open(p, "wb") as f:
                f.write(c if isinstance(c, bytes) else str(c).encode())
        with open(os.path.join(d, "VIOLATION.txt"), "w") as f:
            f.write(f"property {self.pid}\ncase {r['key']}\nkind {v['kind']}\nseed {self.seed} tier {self.tier}\n\n{v['what']}\n\n"
                    f"sample: {json.dumps(r.get('sample'), default=str)}\n\nre-run: cd /verif && VERIF_SEED={self.seed} VERIF_TIER={self.tier} "
                    f"python3-vt checks/{self.pid}.py\n")
        print(f"[{self.pid}] {v['kind']}: {v['what'][:600]}", flush=True)
        print(f"VIOLATION property={self.pid} replay={d}", flush=True)

    def finish(self):
        ev = len(self.results)
        keys = set(r["key"] for r in self.results if r["nontrivial"])
        obs = {}
        for r in self.results:
            for k, x in r["observed"].items():
                obs[k] = obs.get(k, 0) + x
        inc = [r for r in self.results if r["inconclusive"]]
        samples = [dict(case=r["key"], **({"detail": r["sample"]} if r["sample"] is not None else {})) for r in self.results if r["nontrivial"]]
        if len(samples) > 6:
            samples = self.rng("samples").sample(samples, 6)
        cov = dict(evaluations=ev, distinct_nontrivial=len(keys), rule=self.rule, samples=samples,
                   observed={k: (round(v, 6) if isinstance(v, float) else v) for k, v in sorted(obs.items())},
                   inconclusive=len(inc), inconclusive_samples=[dict(case=r["key"], why=r["inconclusive"]) for r in inc[:5]],
                   not_run=self.skipped, known_findings_seen=len(self.fired), **self.extra)
        e = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                 assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=self.reported)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(e, f, indent=1, default=str)
        os.replace(p + ".tmp", p)
        shutil.rmtree(self.tmp, ignore_errors=True)
        print(f"[{self.pid}] {ev} cases, {len(keys)} distinct non-trivial, {self.reported} violations, {len(inc)} inconclusive, "
              f"{time.time() - self.t0:.1f} s", flush=True)
        if self.reported:
            sys.exit(1)
        if self.errors:
            print(f"[{self.pid}] machinery error:\n{self.errors[0]}", flush=True)
            sys.exit(3)
        if len(keys) < self.min_nontrivial:
            print(f"[{self.pid}] observed too little to answer ({len(keys)} non-trivial cases)", flush=True)
            sys.exit(4)
        if len(inc) > max(2, 0.2 * ev) or self.skipped > 0.5 * (self.skipped + ev):
            print(f"[{self.pid}] too many inconclusive or skipped cases", flush=True)
            sys.exit(5)
        sys.exit(0)


def main(fn):
    """run a check's main; machinery failures never look like a verdict"""
    try:
        fn()
    except SystemExit:
        raise
    except BaseException as ex:
        traceback.print_exc()
        print(f"machinery error: {ex}", flush=True)
        sys.exit(3)


def scratch(base, *tag):
    d = tempfile.mkdtemp(prefix="-".join(str(t) for t in tag)[:40].replace("/", "_") + "-", dir=base)
    return d


def slurp(path, limit=200000):
    try:
        with open(path, "rb") as f:
            return f.read(limit)
    except OSError:
        return b""
