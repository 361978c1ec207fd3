"""T02: adapt. Monitor: every row of the mesh functions g(x), f(x) that adapt writes,
against the closed-form solution of the defining equations. With R(w) the weight of
the density of states below w:
   boundaries            R(eps(x)) = R(1) L^(2-x)              (adaptive mesh)
   representative energy R(E(x))   = int_x^(x+1) R(eps(t)) dt  (either mesh; this is
       the statement that averaging over z reproduces the density of states)"""
import os, sys, re, math, shutil, bisect
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common, tools
import numpy as np
from vlib.common import case, viol

ck = None


class Dos:
    """piecewise linear, constant outside the table; exact weight function"""

    def __init__(self, t):
        t = sorted(t)
        self.x = np.array([a for a, _ in t], dtype=np.longdouble)
        self.y = np.array([b for _, b in t], dtype=np.longdouble)
        dx = np.diff(self.x)
        self.I = np.concatenate([[self.x[0] * self.y[0]], self.x[0] * self.y[0] + np.cumsum(dx * (self.y[1:] + self.y[:-1]) / 2)])

    def __call__(self, w):
        return np.interp(np.asarray(w, float), self.x.astype(float), self.y.astype(float))

    def R(self, w):
        w = np.asarray(w, dtype=np.longdouble)
        k = np.clip(np.searchsorted(self.x, w, side="right") - 1, 0, len(self.x) - 2)
        h = w - self.x[k]
        s = (self.y[k + 1] - self.y[k]) / (self.x[k + 1] - self.x[k])
        inner = self.I[k] + h * self.y[k] + h * h * s / 2
        lo = w * self.y[0]
        hi = self.I[-1] + (w - self.x[-1]) * self.y[-1]
        return np.where(w <= self.x[0], lo, np.where(w >= self.x[-1], hi, inner))


def gauss(n=24):
    return np.polynomial.legendre.leggauss(n)


GX, GW = gauss()
G8 = gauss(6)


def boundary(xs, L, dos, adapt, gap):
    """R(eps(x)) for the exact mesh"""
    xs = np.asarray(xs, float)
    if adapt:
        return dos.R(1.0) * np.where(xs <= 2, 1.0, L ** (2 - xs))
    e = np.where(xs <= 2, 1.0, L ** (2 - xs))
    if gap is not None:
        e = (1 - gap) * e + gap
    return dos.R(e)


def weight_integral(a, L, dos, adapt, gap):
    """int_a^(a+1) R(eps(t)) dt, integrated between the kinks"""
    if adapt:
        R1 = float(dos.R(1.0))
        r = 0.0
        lo, hi = a, a + 1
        if lo < 2:
            r += R1 * (min(hi, 2) - lo)
            lo = min(hi, 2)
        if hi > lo:
            r += R1 * (L ** (2 - lo) - L ** (2 - hi)) / math.log(L)
        return r
    cuts = [a, a + 1]
    if a < 2 < a + 1:
        cuts.append(2.0)
    for w in dos.x:
        w = float(w)
        if gap is not None:
            w = (w - gap) / (1 - gap)
        if w > 0:
            t = 2 - math.log(w) / math.log(L)
            if a < t < a + 1:
                cuts.append(t)
    cuts = np.array(sorted(cuts))
    mid, half = (cuts[1:] + cuts[:-1]) / 2, np.diff(cuts) / 2
    t = mid[:, None] + half[:, None] * GX[None, :]
    return float(np.sum(boundary(t.ravel(), L, dos, adapt, gap).reshape(t.shape) * GW[None, :] * half[:, None]))


def table_integral(xs, L, dos, G):
    """R(1) - int_1^x [R(eps(t)) - R(eps(t+1))] dt with eps from the table of g"""
    def Reps(t):
        e = np.where(t <= 2, 1.0, np.interp(t, G[:, 0], G[:, 1]) * L ** (2 - t))
        return dos.R(e).astype(float)
    cuts = np.unique(np.concatenate([[1.0, 2.0], xs, G[:, 0], G[:, 0] - 1, np.arange(1, xs[-1], 1 / 1024)]))
    cuts = cuts[(cuts >= 1) & (cuts <= xs[-1])]
    mid, half = (cuts[1:] + cuts[:-1]) / 2, np.diff(cuts) / 2
    t = (mid[:, None] + half[:, None] * G8[0][None, :]).ravel()
    v = (Reps(t) - Reps(t + 1)).reshape(len(mid), -1) @ G8[1] * half
    cum = np.concatenate([[0.0], np.cumsum(v)])
    return float(dos.R(1.0)) - np.interp(xs, cuts, cum)


def density(rng, sgn, gap=None):
    n = rng.choice([2, 4, rng.randint(8, 60)])
    lo = 10 ** rng.uniform(-4, -1.5)
    kind = rng.choice(["flat", "smooth", "linear", "steps", "power", "noisy"])
    D = rng.choice([1.0, 1.0, 1.0, 0.9])
    xs = sorted({D * (lo / D) ** (k / (n - 1)) for k in range(n)} | {D})
    if gap is not None:
        xs = sorted(gap + (D - gap) * x / D for x in xs if x > lo) or [gap + 0.01, D]
        xs = [gap] + [x for x in xs if x > gap * (1 + 1e-9)]
    a, ph = rng.uniform(0.05, 3), rng.uniform(0, 6)
    r = rng.choice([0.5, 1.0, -0.4])
    t = []
    for x in xs:
        y = {"flat": a, "smooth": a * (1 + 0.6 * math.sin(2 * x + ph)), "linear": a * (0.2 + 0.8 * x), "steps": a * (0.3 if (x * 7 + ph) % 1 < 0.5 else 1),
             "power": a * x ** r, "noisy": a * rng.uniform(0.3, 1)}[kind]
        t.append((x, y))
    return kind, t


def ptext(rng, p):
    L = [f"{k}{rng.choice(['=', ' = '])}{v}" for k, v in p.items()]
    rng.shuffle(L)
    return "\n".join(rng.choice([[], ["[extra]", "Lambda=9", ""]]) + ["[param]"] + L + rng.choice([[], ["[other]", "xmax=3"]])) + "\n"


def mesh(i):
    rng = ck.rng("mesh", i)
    d = common.scratch(ck.tmp, "a", i)
    try:
        L = rng.choice([1.5, 2.0, 2.0, 3.0, 4.0])
        adapt = rng.random() < 0.55
        gap = rng.uniform(0.05, 0.3) if not adapt and rng.random() < 0.2 else None
        neg = rng.random() < 0.5
        while True:
            kinds = [density(rng, s, gap) for s in (1, -1)]
            D0 = Dos(kinds[1 if neg else 0][1])
            if not adapt or float(D0.R(1.0) / D0.I[0]) < L ** 22:
                break
        kind, t = kinds[1 if neg else 0]
        flat = None
        if gap is None and rng.random() < 0.15:
            flat = 10 ** rng.uniform(-2, 1)
            kind, t = "--flat", [(1e-10, flat), (1.0, flat)]
        br = rng.choice([None, None, rng.uniform(0.3, 4)])
        b = br or 1.0
        step = rng.choice([1 / 64, 1 / 32, 0.05, 0.125, 0.3])
        xmax = rng.choice([3.5, 8, 12, 16, 20])
        xmax = min(xmax, 2 + 27 * math.log(2) / math.log(L))
        if adapt:
            # the tool requires the mesh to have reached the constant part at the smallest energies
            D0 = Dos(t)
            need = 2 + math.log(max(1.0, float(D0.R(1.0) / D0.I[0]))) / math.log(L) + 4 if flat is None else 4
            xmax = need + rng.uniform(0, 3)
        if gap is not None:
            xmax = min(xmax, 2 + math.log(0.5 / gap * 60) / math.log(L), 2 + 8 * math.log(2) / math.log(L))
        dx = rng.choice([1e-5, 2e-5])
        p = dict(Lambda=repr(L), xmax=repr(xmax), outputstep=repr(step), dx_fine=repr(dx), dx_fast=repr(rng.choice([1e-4, 1e-4, 4e-4])), xfine=repr(rng.choice([2.0, 3.0, 5.0])),
                 max_subdiv=rng.choice([10, 20, 25]), allowed_error="1e-10", max_abs="1e6")
        if adapt:
            p["adapt"] = "true"
        if br:
            p["bandrescale"] = repr(br)
        if gap is not None:
            p.update(hardgap="true", boundary=repr(gap))
        dos = rng.choice(["Delta.dat", "Delta.dat", "my.dos"])
        if dos != "Delta.dat":
            p["dos"] = dos
        pf = rng.choice(["param", "param", "p2"])
        open(f"{d}/{pf}", "w").write(ptext(rng, p))
        rows = [(s * x * b, y / b) for s, (_, tt) in zip((1, -1), kinds) for x, y in tt]
        if rng.random() < 0.3:
            rows.append((0.0, rng.uniform(0, 5)))
        rng.shuffle(rows) if rng.random() < 0.3 else rows.sort()
        if flat is None:
            tools.write(f"{d}/{dos}", rows, rng=rng, comments=True)
        loadg = adapt and rng.random() < 0.2
        if loadg:
            p["loadg"] = "true"
            open(f"{d}/{pf}", "w").write(ptext(rng, p))
            a_ = rng.uniform(0, 0.2)
            gt = [(2 + k * step, 1 + a_ * math.sin(0.7 * k * step)) for k in range(int((xmax - 2) / step) + 2)]
            tools.write(f"{d}/GSOL{'NEG' if neg else ''}.dat", gt, rng=rng, comments=True)
        args = ([rng.choice(["N", "neg", "NEGATIVE"])] if neg else rng.choice([[], ["P"], ["pos"]])) + ([pf] if pf != "param" else [])
        if flat is not None:
            args = rng.choice([["--flat", repr(flat)], [f"--flat={flat!r}"]]) + args
        r = tools.run("adapt", args, d, timeout=40)
        if r.timeout:
            return case(f"mesh/{i}", False, inconclusive="timed out")
        what = f"adapt {' '.join(args)} {kind} Lambda={L} xmax={xmax:.3g}{' adaptive' if adapt else ''}{' loadg' if loadg else ''}{' hardgap' if gap is not None else ''}{' bandrescale' if br else ''}"
        files = dict(tools.files_of(d), stdout=r.out[-5000:], stderr=r.err[-3000:])
        if flat is not None:
            t = [(1e-10 / b, flat * b), (1.0 / b, flat * b)]
        D = Dos(t)
        suf = "NEG" if neg else ""
        F, G = tools.table(f"{d}/FSOL{suf}.dat"), tools.table(f"{d}/GSOL{suf}.dat")
        if r.rc != 0:
            smooth = kind in ("flat", "smooth", "linear", "--flat") and gap is None
            V = [viol("adapt-failed", f"{what}: exit {r.rc} for a well-behaved density {r.err[-300:]}", files)] if smooth or not r.err.strip() else []
            return case(f"mesh/{i}", bool(V), {"rejected": 1}, dict(what=what, err=r.err[-200:]), V)
        if F is None or F.shape[1] != 2 or (adapt and (G is None or G.shape[1] != 2)):
            return case(f"mesh/{i}", True, violations=[viol("adapt-output", f"{what}: exit 0 but the mesh functions are not written", files)])
        c = tools.Cmp()
        R1 = float(D.R(1.0))
        worst = {}

        def grid(nm, T, first):
            n = len(T)
            c.arr(f"{what}: x of {nm}", T[:, 0], first + step * np.arange(n), 1e-8)
            full = "Terminating" in r.out
            if not full and not (T[-1, 0] >= xmax - 1e-6 and (n < 2 or T[-2, 0] < xmax + 1e-6)):
                c.worst, c.what = np.inf, f"{what}: {nm} ends at x={T[-1, 0]}, xmax={xmax}"
        grid("FSOL", F, 1.0)
        nodes = len(t)
        if adapt and not loadg:
            grid("GSOL", G, 2.0)
            x, g = G[:, 0], G[:, 1]
            want = boundary(x, L, D, True, None)
            got = D.R(g * L ** (2 - x))
            # absolute weight error of the integration plus the convergence criterion at xmax
            tol = R1 * (1e-7 + 3e-4 * L ** (2 - xmax)) + 1e-9 * want
            c.arr(f"{what}: weight below eps(x)", got.astype(float), want.astype(float), tol.astype(float))
            worst["g"] = float(np.max(np.abs(got - want)) / R1)
        x, f = F[:, 0], F[:, 1]
        want = np.array([weight_integral(a, L, D, adapt, gap) for a in x]) if not loadg else table_integral(x, L, D, G)
        got = D.R(f * L ** (2 - x)).astype(float)
        worst["f"] = float(np.max(np.abs(got - want)) / R1)
        if adapt:
            # the tool interpolates its tabulated g(x) linearly
            w2 = table_integral(x, L, D, G)
            worst["f (own mesh)"] = float(np.max(np.abs(got - w2)) / R1)
            c.arr(f"{what}: weight below E(x), given g(x)", got, w2, R1 * 1e-7 + 1e-9 * np.abs(want))
            if not loadg:
                c.arr(f"{what}: weight below E(x)", got, want, R1 * (1e-7 + 3e-4 * L ** (2 - xmax) + step * step) + 1e-9 * np.abs(want))
        else:
            c.arr(f"{what}: weight below E(x)", got, want, R1 * 1e-7 + 1e-9 * np.abs(want))
        if np.any(np.diff(f * L ** (-x)) > 1e-9):
            c.worst, c.what = np.inf, f"{what}: representative energies do not decrease"
        V = [viol("mesh", c.what, files)] if c.what else []
        return case(f"mesh/{i}", True, {"rows": len(F) + (len(G) if adapt else 0), "adaptive": int(adapt), "mesh loaded": int(loadg)}, dict(what=what, worst=worst, kind=kind, nodes=nodes), V)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def bad(i):
    rng = ck.rng("bad", i)
    d = common.scratch(ck.tmp, "b", i)
    try:
        kind = rng.choice(["negative", "oneside", "missing", "empty", "onecol", "zero", "nan", "word", "Lambda", "xmax", "step", "fine", "args", "flat", "loadg", "valid"])
        p = dict(Lambda="2.0", xmax="6", outputstep="0.125", dx_fine="1e-3", dx_fast="1e-3", max_subdiv="10")
        t = [(s * x, 0.4) for s in (1, -1) for x in (0.01, 0.2, 0.7, 1.0)]
        args = rng.choice([[], ["P"], ["N"]])
        if rng.random() < 0.5:
            p["adapt"] = "true"
        sgn = -1 if args == ["N"] else 1
        k = rng.choice([j for j, r in enumerate(t) if r[0] * sgn > 0])
        text = None
        if kind == "negative":
            t[k] = (t[k][0], -0.1)
        if kind == "oneside":
            t = [r for r in t if r[0] * sgn < 0]
        if kind == "zero":
            t = [(x, 0.0) for x, _ in t]
        L = [f"{x!r} {y!r}" for x, y in t]
        if kind == "nan":
            L[k] = f"{t[k][0]!r} {rng.choice(['nan', 'inf', '-inf', '1e999'])}"
        if kind == "word":
            L[k] = rng.choice([f"{t[k][0]!r} abc", f"{t[k][0]!r} 0.4x", f"x {t[k][1]!r}", f"{t[k][0]!r}", f"{t[k][0]!r} 0..4"])
        if kind == "onecol":
            L = [l.split()[0] for l in L]
        if kind == "empty":
            L = rng.choice([[], ["# only a comment"]])
        if kind == "Lambda":
            p["Lambda"] = rng.choice(["1", "0.3", "-2", "nan"])
        if kind == "xmax":
            p["xmax"] = rng.choice(["1", "0.5", "-3", "nan"])
        if kind == "step":
            p["outputstep"] = rng.choice(["1.5", "nan"])
        if kind == "fine":
            p[rng.choice(["dx_fine"])] = rng.choice(["1e-15", "0", "-1e-3", "nan"])
        if kind == "args":
            args = rng.choice([["P", "N"], ["--what"], ["P", "param", "param"], ["nosuchfile"], ["--flat"], ["--flat", "1", "--flat", "2"]])
        if kind == "flat":
            args = ["--flat", rng.choice(["0", "-1", "nan", "1x", "", "inf", "abc"])] + args
        if kind == "loadg":
            p["loadg"] = "true"
            p["adapt"] = "true"
        open(d + "/param", "w").write(ptext(rng, p))
        if kind != "missing":
            open(d + "/Delta.dat", "w").write("\n".join(L) + "\n")
        r = tools.run("adapt", args, d, timeout=40)
        V = []
        f = dict(tools.files_of(d), stdout=r.out[-3000:], stderr=r.err[-2000:])
        if kind == "valid":
            if r.rc != 0:
                V.append(viol("valid-rejected", f"adapt rejects valid input: exit {r.rc} {r.err[-200:]}", f))
        elif r.timeout:
            return case(f"bad/{kind}/{i}", False, inconclusive="timed out")
        elif r.rc == 0:
            V.append(viol("accepted", f"adapt {args}: exit 0 for unusable input ({kind}: {L[k] if kind in ('nan', 'word', 'negative') else p})", f))
        elif not r.err.strip():
            V.append(viol("no-message", f"adapt: exit {r.rc} without a message ({kind})", f))
        return case(f"bad/{kind}/{i}", True, {"unusable inputs": kind != "valid"}, dict(kind=kind, args=args), V)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global ck
    ck = common.Check("T02", "exploration", "a case counts if adapt wrote mesh functions and every row was compared with the closed-form solution, or if the rejection of an unusable input was judged",
                      ["density of states as interpolated linearly from its table, constant outside"])
    tools.need(["adapt"])
    ck.run(mesh, range(ck.n(120, 1500)))
    ck.run(bad, range(ck.n(80, 400)))
    ck.finish()


common.main(main)
