"""running the tools and comparing what they write"""
import os, shutil
import numpy as np
from . import build, nrgrun, common
from .common import case, viol

BIN = {}
SAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98"}


def need(names, variant="plain"):
    BIN.update({(n, variant): p for n, p in build.tools(list(names), variant).items()})


def run(name, args, cwd, timeout=60, variant="plain", stdin=None, env=None, limit_as=None):
    return nrgrun.run([BIN[(name, variant)]] + [str(a) for a in args], cwd, timeout=timeout, extra_env=dict(SAN, **(env or {})), stdin=stdin, limit_as=limit_as)


def table(path):
    """rows of numbers; None if missing or not numeric"""
    try:
        with open(path) as f:
            return parse(f.read())
    except (OSError, UnicodeDecodeError):
        return None


def parse(text):
    rows = []
    for l in text.splitlines():
        if l.startswith("#") or not l.strip():
            continue
        try:
            rows.append([float(x) for x in l.split()])
        except ValueError:
            return None
    if rows and any(len(r) != len(rows[0]) for r in rows):
        return None
    return np.array(rows) if rows else np.zeros((0, 0))


def write(path, rows, rng=None, comments=False, fmt=None):
    """tabulated text; with rng: random but equivalent spacing and number formats"""
    f = fmt or repr
    L = []
    if comments and rng is not None and rng.random() < 0.6:
        L.append("# comment line 1 2 3")
    for r in rows:
        if rng is None:
            L.append(" ".join(f(float(x)) for x in r))
        else:
            L.append(rng.choice(["", "", " ", "\t"]) + rng.choice([" ", "  ", "\t"]).join(num(rng, float(x)) for x in r) + rng.choice(["", "", " "]))
    with open(path, "w") as g:
        g.write("\n".join(L) + "\n")


def num(rng, x):
    s = repr(x)
    k = rng.random()
    if k < 0.5:
        return s
    if k < 0.8:
        return "%.17g" % x
    return "%.17e" % x


def logmesh(rng, n, lo, hi):
    a = np.exp(np.linspace(np.log(lo), np.log(hi), n))
    return a


def files_of(d, limit=300000):
    r = {}
    for root, _, fs in os.walk(d):
        for f in sorted(fs):
            p = os.path.join(root, f)
            if os.path.isfile(p) and len(r) < 12:
                r[os.path.relpath(p, d).replace("/", "_")] = common.slurp(p, limit)
    return r


class Cmp:
    """keeps the worst disagreement"""

    def __init__(self):
        self.n, self.worst, self.what = 0, 1.0, None

    def __call__(self, what, got, want, tol):
        self.n += 1
        with np.errstate(all="ignore"):
            e = abs(got - want) / tol if tol > 0 else (0.0 if got == want else np.inf)
        e = np.inf if np.isnan(e) else e
        if e > self.worst:
            self.worst, self.what = e, f"{what}: tool {got!r}, expected {want!r} (tolerance {tol:.3g})"

    def arr(self, what, got, want, tol):
        got, want = np.asarray(got, float), np.asarray(want, float)
        tol = np.broadcast_to(np.asarray(tol, float), want.shape)
        if got.shape != want.shape:
            self.n += 1
            self.worst, self.what = np.inf, f"{what}: {got.shape} values, expected {want.shape}"
            return
        self.n += got.size
        if not got.size:
            return
        with np.errstate(all="ignore"):
            e = np.abs(got - want) / np.maximum(tol, 1e-300)
        e = np.where(np.isnan(e), np.inf, e)
        k = np.unravel_index(int(np.argmax(e)), e.shape)
        if e[k] > self.worst:
            self.worst = float(e[k])
            self.what = f"{what}[{','.join(map(str, k))}]: tool {float(got[k])!r}, expected {float(want[k])!r} (tolerance {float(tol[k]):.3g})"
