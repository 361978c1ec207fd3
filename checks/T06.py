"""T06: integ, specmoments, resample. Monitor: what the tools print for random
tables, against exact integrals of the Akima interpolant, moments summed in
extended precision, and the interpolant itself."""
import os, sys, math, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common, tools
from vlib.akima import Akima
import numpy as np
from vlib.common import case, viol

ck = None


def table(rng, nmin=5, nmax=120):
    """random tabulated function: (kind, x, y), x strictly increasing"""
    n = rng.randint(nmin, nmax)
    kind = rng.choice(["log", "lin", "random", "pos", "pm", "exact"])
    if kind == "lin":
        x = np.linspace(rng.uniform(-3, -0.2), rng.uniform(0.3, 3), n)
    elif kind == "random":
        x = np.sort(np.array([rng.uniform(-4, 4) for _ in range(n)]))
    elif kind == "pos":
        x = np.cumsum(np.array([rng.uniform(0.01, 1) for _ in range(n)]))
    elif kind == "exact":
        x = np.cumsum(np.array([rng.randint(1, 8) for _ in range(n)])) / 16.0 - rng.randint(0, 16)
    else:
        h = max(n // 2, 3)
        r = rng.uniform(1.02, 1.6)
        p = rng.uniform(0.5, 2) * r ** -np.arange(h)[::-1]
        x = np.concatenate([-p[::-1], [0.0] if rng.random() < 0.4 else [], p]) if kind == "pm" or rng.random() < 0.7 else p
    x = np.unique(x)
    keep = [0]
    for j in range(1, len(x)):
        if x[j] - x[keep[-1]] > 1e-5 * (abs(x[j]) + abs(x[keep[-1]])):
            keep.append(j)
    x = x[keep]
    while len(x) < 5:
        x = np.append(x, x[-1] + 0.25)
    f = rng.choice(["smooth", "random", "pos", "lin", "steps"])
    if f == "smooth":
        a, b, c = rng.uniform(-2, 2), rng.uniform(0.1, 3), rng.uniform(-1, 1)
        y = a * np.exp(-(x - c) ** 2 * b) + rng.uniform(-1, 1) * np.sin(x)
    elif f == "random":
        y = np.array([rng.uniform(-2, 2) for _ in x])
    elif f == "pos":
        y = np.array([rng.uniform(0, 2) * 10 ** rng.uniform(-2, 2) for _ in x])
    elif f == "lin":
        y = rng.uniform(-1, 1) + rng.uniform(-1, 1) * x
        y = y + np.array([rng.uniform(-1, 1) for _ in x]) * (0 if kind == "exact" else 1)
        if kind == "exact":
            y = 0.5 + 0.25 * x
    else:
        y = np.array([float(rng.randint(0, 1)) * 2 for _ in x])
    return f"{kind}/{f}", x, y


def integ(i):
    rng = ck.rng("integ", i)
    d = common.scratch(ck.tmp, "i", i)
    try:
        kind, x, y = table(rng)
        if rng.random() < 0.1:
            y = y * 10.0 ** rng.randint(-8, 8)
        rows = list(zip(x, y))
        if rng.random() < 0.5:
            rng.shuffle(rows)
        tools.write(d + "/f.dat", rows, rng=rng, comments=True)
        A = Akima(x, y)
        ab = A.integral(absolute=True)
        T = 10 ** rng.uniform(-6, 1)
        c = tools.Cmp()
        warn = 0
        span = x[-1] - x[0]
        modes = [("", A.integral()), ("-p", A.integral(lo=0.0) if x[-1] > 0 else 0.0), ("-n", A.integral(hi=0.0) if x[0] < 0 else 0.0), ("-a", ab)]
        br = [0.0] + [s * T * k for s in (-1, 1) for k in (0.5, 1, 2, 3, 4, 6, 8, 10, 13, 16, 20, 25, 30, 40)]
        with np.errstate(over="ignore"):
            modes.append(("-f", A.weighted(lambda t: 1.0 / (1.0 + np.exp(t / T)), br)))
        out = {}
        for mode, want in modes:
            args = ([mode] if mode else []) + (["-T", repr(T)] if mode == "-f" or rng.random() < 0.2 else []) + (["-w"] if rng.random() < 0.2 else []) + ["f.dat"]
            r = tools.run("integ", args, d)
            try:
                got = float(r.out.split()[0])
                one = len(r.out.split()) == 1
            except (ValueError, IndexError):
                got, one = float("nan"), False
            if r.rc != 0 or not one:
                return case(f"integ/{i}", True, violations=[viol("integ-failed", f"integ {args} on {kind}: exit {r.rc}, output {r.out[:200]!r} {r.err[-200:]}", tools.files_of(d))])
            out[mode] = got
            if "WARNING" in r.err:
                warn += 1
            c(f"integ {mode} ({kind}, T={T:.3g})", got, want, (2e-5 if mode == "-a" else 1e-6) * ab + 2e-11 * span + 1e-300 + (2 * A.dips() if mode == "-a" else 0) if "WARNING" not in r.err else 1e-4 * ab + 2e-11 * span)
        c("positive + negative = total", out["-p"] + out["-n"], out[""], 2e-6 * ab + 4e-11 * span + 1e-300 if not warn else 1e-3 * ab + 4e-11 * span)
        V = [viol("integ", c.what, tools.files_of(d))] if c.what else []
        return case(f"integ/{i}", True, dict(integrals=5, qag_warnings=warn), dict(tool="integ", kind=kind, n=len(x), T=T), V)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def specmoments(i):
    rng = ck.rng("specmoments", i)
    d = common.scratch(ck.tmp, "s", i)
    try:
        Nz = rng.choice([1, 1, 2, 4, 11])
        one = rng.random() < 0.4
        pos = rng.random() < 0.25
        neg = rng.random() < 0.25
        cen = rng.random() < 0.4
        dec = rng.choice([0, 1, 2, 6])
        data = []
        shared = [rng.choice([-1, 1]) * 10 ** rng.uniform(-dec, 0.5) for _ in range(8)]
        for z in range(Nz):
            n = rng.choice([0, 1, 3, 100]) if rng.random() < 0.3 else rng.randint(1, 80)
            data.append([(rng.choice(shared) if rng.random() < 0.3 else rng.choice([-1, 1]) * 10 ** rng.uniform(-dec, 1), rng.uniform(0.0 if cen else -1, 1)) for _ in range(n)])
        narrow = rng.random() < 0.3
        if narrow:
            # a narrow distribution far away from zero
            c0, w0 = rng.choice([-1, 1]) * 10 ** rng.uniform(-3, 4), 10 ** rng.uniform(-9, -1)
            data = [[(c0 * (1 + w0 * rng.uniform(-1, 1)), w) for _, w in r] for r in data]
        allf = sorted(abs(f) for r in data for f, _ in r)
        lo = hi = None
        if rng.random() < 0.5 and allf:
            lo = rng.choice([rng.choice(allf), 10 ** rng.uniform(-dec, 1)])
        if rng.random() < 0.5 and allf:
            hi = rng.choice([rng.choice(allf), 10 ** rng.uniform(-dec, 1)])
        for z in range(Nz):
            p = d if one and Nz == 1 else os.path.join(d, str(z + 1))
            os.makedirs(p, exist_ok=True)
            np.array(data[z], dtype=np.float64).reshape(-1, 2).tofile(os.path.join(p, "spec.bin"))
        args = (["-o"] if one else []) + (["-l", repr(lo)] if lo is not None else []) + (["-h", repr(hi)] if hi is not None else []) \
            + (["-p"] if pos else []) + (["-n"] if neg else []) + (["-c"] if cen else []) + ["spec.bin", Nz]
        sel = [(f, w / Nz) for r in data for f, w in r if not (lo is not None and abs(f) < lo) and not (hi is not None and abs(f) > hi)
               and not (pos and f < 0) and not (neg and f > 0)]
        r = tools.run("specmoments", args, d)
        m = [math.fsum(w * f ** k for f, w in sel) for k in range(5)]
        ab = [math.fsum(abs(w) * abs(f) ** k for f, w in sel) for k in range(5)]
        fl = lambda: dict(tools.files_of(d), **{"input.txt": repr(data)[:100000], "args": repr(args)})
        if cen and (not sel or m[0] <= 1e-12 * ab[0]):
            # no weight left: there is no mean, the tool has to say so
            V = [] if r.rc != 0 else [viol("specmoments-empty", f"central moments of an empty spectrum: exit 0, output {r.out!r}", fl())] if not sel else []
            return case(f"specmoments/{i}", False, dict(empty_spectra=1), None, V)
        try:
            got = [float(t) for t in r.out.split()]
        except ValueError:
            got = []
        if r.rc != 0 or len(got) != 5:
            return case(f"specmoments/{i}", True, violations=[viol("specmoments-failed", f"specmoments {args}: exit {r.rc}, output {r.out!r} {r.err[-200:]}", fl())])
        c = tools.Cmp()
        if cen:
            mu = m[1] / m[0]
            dmu = 1e-14 * len(sel) * (abs(mu) + ab[1] / m[0]) + 1e-15 * max(abs(f) for f, _ in sel)
            want = [m[0], m[1]] + [math.fsum(w * (f - mu) ** k for f, w in sel) / m[0] for k in (2, 3, 4)]
            tol = [1e-13 * ab[0], 1e-13 * ab[1]] + [math.fsum(abs(w) * (k * abs(f - mu) ** (k - 1) * dmu + dmu ** k + 1e-12 * abs(f - mu) ** k) for f, w in sel) / m[0] for k in (2, 3, 4)]
        else:
            want, tol = m, [1e-13 * a for a in ab]
        for k in range(5):
            c(f"moment {k} {args}", got[k], want[k], tol[k] + 1e-300)
        V = [viol("specmoments", c.what, fl())] if c.what else []
        return case(f"specmoments/{i}", len(sel) > 0, dict(moments=5, peaks=len(sel)), dict(tool="specmoments", args=args, peaks=len(sel)), V)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def resample(i):
    rng = ck.rng("resample", i)
    d = common.scratch(ck.tmp, "r", i)
    try:
        kind, x, y = table(rng, 5, 100)
        ext = rng.random() < 0.5
        below = rng.uniform(-3, 3) if ext and rng.random() < 0.5 else None
        above = rng.uniform(-3, 3) if ext and rng.random() < 0.5 else None
        span = x[-1] - x[0]
        n = rng.randint(1, 150)
        g = [rng.uniform(x[0], x[-1]) for _ in range(n)] + [float(rng.choice(x)) for _ in range(rng.randint(0, 10))]
        if rng.random() < 0.5:
            g += [float(x[0]), float(x[-1])]
        if ext:
            g += [float(x[0] - span * rng.uniform(0, 1)) for _ in range(rng.randint(0, 5))] + [float(x[-1] + span * rng.uniform(0, 1)) for _ in range(rng.randint(0, 5))]
            g += [float(np.nextafter(x[0], -np.inf)), float(np.nextafter(x[-1], np.inf))] if rng.random() < 0.3 else []
        order = rng.choice(["asc", "desc", "shuffle"])
        g.sort(reverse=order == "desc")
        if order == "shuffle":
            rng.shuffle(g)
        rows = list(zip(x, y))
        if rng.random() < 0.5:
            rng.shuffle(rows)
        tools.write(d + "/in.dat", rows, rng=rng, comments=True)
        tools.write(d + "/grid.dat", [(q, rng.uniform(-1, 1)) for q in g], rng=rng)
        outn = rng.choice(["out.dat", "grid.dat"])
        prec = rng.choice([None, None, 17, 10])
        args = (["-e"] if ext else []) + (["-a", repr(below)] if below is not None else []) + (["-b", repr(above)] if above is not None else []) \
            + (["-p", prec] if prec else []) + ["in.dat", "grid.dat", outn]
        fl = tools.files_of(d)
        r = tools.run("resample", args, d)
        o = tools.table(d + "/" + outn)
        if r.rc != 0 or o is None or o.ndim != 2 or o.shape[1:] != (2,):
            return case(f"resample/{i}", True, violations=[viol("resample-failed", f"resample {args}: exit {r.rc}, output {None if o is None else o.shape} {r.err[-300:]}", fl)])
        A = Akima(x, y)
        g = np.array(g)
        want = A(g)
        below = y[0] if below is None else below
        above = y[-1] if above is None else above
        want = np.where(g < x[0], below, np.where(g > x[-1], above, want))
        p = prec or 16
        rel = 2 * 10.0 ** (1 - p)
        s = np.max(np.abs(y)) * 1e-13 + max(A.deriv_bound().max() * 0, 0)
        k = np.clip(np.searchsorted(x, g) - 1, 0, len(x) - 2)
        tol = s + rel * np.abs(want) + A.deriv_bound()[k] * np.abs(g) * 4e-16 + 1e-12 * (np.abs(A.b)[k] + np.abs(A.c)[k] * np.diff(x)[k]) * np.diff(x)[k]
        c = tools.Cmp()
        c.arr(f"resample {kind}: grid points", o[:, 0], g, rel * np.abs(g) + 1e-300)
        c.arr(f"resample {kind} {args}: values", o[:, 1], want, tol)
        V = [viol("resample", c.what, dict(fl, output=common.slurp(d + "/" + outn)))] if c.what else []
        return case(f"resample/{i}", True, dict(resampled_points=len(g), extrapolated=int(((g < x[0]) | (g > x[-1])).sum())), dict(tool="resample", kind=kind, args=args, n=len(x), grid=len(g)), V)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global ck
    ck = common.Check("T06", "exploration",
                      "random monotone tables (logarithmic, linear, random, signed, steps), filters, temperatures, grids and extrapolations; non-trivial = the "
                      "printed numbers were compared with the exact value for the Akima interpolant / the sum over all peaks",
                      ["tables have at least 5 strictly increasing points (the interpolant of the tools is the Akima spline)",
                       "without -e the grid of resample lies inside the input range", "accuracy of integ: 1e-6 of the integral of |f| (2e-5 with -a, where the integrand has kinks); with -a, sign changes in pairs inside one interval between data points may be missed"])
    tools.need(["integ", "specmoments", "resample"])
    ck.run(integ, range(ck.n(250, 6000)))
    ck.run(specmoments, range(ck.n(500, 12000)))
    ck.run(resample, range(ck.n(500, 12000)))
    ck.finish()


common.main(main)
