"""T05: kk, hilb, mats. Monitor: every number the tools write for random tables,
against the transforms of the same interpolant integrated interval by interval
(analytically near the singularity), and the sum over the peaks."""
import os, sys, math, shutil, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common, tools
from vlib.akima import Akima
import numpy as np
from vlib.common import case, viol

ck = None
LIMK = LIMH = 0.03
LG = np.polynomial.legendre.leggauss(20)


class Cubic:
    """natural cubic spline, as piecewise cubics y+s(b+s(c+s d)); zero outside"""

    def __init__(self, x, y):
        x, y = np.asarray(x, float), np.asarray(y, float)
        n, h = len(x), np.diff(x)
        m = np.zeros(n)
        if n > 2:
            A = np.zeros((n - 2, n - 2))
            r = 6 * (np.diff(y[1:]) / h[1:] - np.diff(y[:-1]) / h[:-1])
            i = np.arange(n - 2)
            A[i, i] = 2 * (h[:-1] + h[1:])
            A[i[:-1], i[:-1] + 1] = h[1:-1]
            A[i[:-1] + 1, i[:-1]] = h[1:-1]
            m[1:-1] = np.linalg.solve(A, r)
        self.x, self.y = x, y
        self.b = np.diff(y) / h - h * (2 * m[:-1] + m[1:]) / 6
        self.c = m[:-1] / 2
        self.d = np.diff(m) / (6 * h)


def pieces(S):
    return S.x[:-1], S.x[1:], S.y[:len(S.x) - 1], S.b, S.c, S.d


def stieltjes(S, z, sub=None):
    """int S(t)/(t-z) dt over the range of S, z complex off the axis, or (sub=value
    of S at the real z) int (S(t)-sub)/(t-z) dt"""
    a, b, y, B, C, D = pieces(S)
    h = b - a
    x0 = z.real if sub is None else z
    far = (np.maximum(a - x0, x0 - b) > 0.7 * h) | ((abs(z.imag) > 0.7 * h) if sub is None else False)
    f = 0.0 if sub is None else sub
    tot = 0.0
    if far.any():
        t, w = LG
        s = h[far, None] * (t[None, :] + 1) / 2
        p = y[far, None] + s * (B[far, None] + s * (C[far, None] + s * D[far, None])) - f
        # t-z as (a-z)+s keeps the small differences
        tot = ((w[None, :] * h[far, None] / 2) * p / ((a[far] - z)[:, None] + s)).sum()
    for k in np.nonzero(~far)[0]:
        u = z - a[k]  # local coordinate of the pole
        # p(s) = p(u) + (s-u) q(s)
        q2 = D[k]
        q1 = C[k] + u * q2
        q0 = B[k] + u * q1
        pu = y[k] + u * q0 - f
        H = h[k]
        tot = tot + H * (q0 + H * (q1 / 2 + H * q2 / 3))
        if sub is None:
            L = np.log((H - u) / (-u)) if abs(u) else 0.0
            if z.imag != 0:
                # log((b-z)/(a-z)) on the branch continuous for Im z fixed
                L = complex(0.5 * math.log(abs(H - u) ** 2 / abs(u) ** 2), (math.atan2(-z.imag, H - u.real) - math.atan2(-z.imag, -u.real)))
            tot = tot + pu * L
        elif abs(u) > 0 and abs(H - u) > 0:
            tot = tot + (pu * math.log(abs((H - u) / u)) if not 0 < u < H else pu * math.log((H - u) / u))
    return tot


class Two(tools.Cmp):
    """counts disagreements beyond the accuracy claimed (adaptive quadrature misses
    a narrow feature now and then); a gross one is a violation by itself"""

    def __init__(self):
        super().__init__()
        self.out, self.cnt, self.first = 0, 0, None

    def near(self, what, got, want, fine, gross):
        self.cnt += 1
        e = abs(got - want)
        if not e <= fine:
            self.out += 1
            if self.first is None:
                self.first = f"{what}: tool {float(got)!r}, expected {float(want)!r}"
        self(what, float(got), float(want), gross)


def rate(label, results, limit):
    """the accuracy holds for all but a small fraction of the points"""
    k = [r["near"] for r in results if r and "near" in r]
    n, o = sum(c[0] for c in k), sum(c[1] for c in k)
    if o > limit * n + 5:
        f = [c[2] for c in k if c[2]]
        ck.add(case(label + "/accuracy", True, {}, None, [viol(label + "-accuracy", f"{label}: {o} of {n} points beyond the accuracy claimed, e.g. {f[0]}", {"points.txt": "\n".join(f)})]))


def mesh(rng, n, kind):
    """positive increasing mesh"""
    if kind == "log":
        r = rng.uniform(1.05, 1.7)
        p = rng.uniform(0.5, 3) * r ** -np.arange(n)[::-1]
        return p[p > 1e-12]
    if kind == "lin":
        return (np.arange(n) + 0.5) * rng.uniform(0.01, 0.2)
    g = np.cumsum(np.array([rng.uniform(0.02, 1) for _ in range(n)]))
    return g / g[-1] * rng.uniform(0.5, 4)


def values(rng, x, f):
    if f == "smooth":
        return rng.uniform(0.2, 2) * np.exp(-(x - rng.uniform(-1, 1)) ** 2 * rng.uniform(0.2, 3))
    if f == "peaks":
        y = np.zeros(len(x))
        for _ in range(rng.randint(1, 4)):
            c, g = rng.choice([0.0, float(rng.choice(x))]), 10 ** rng.uniform(-3, 0)
            y += rng.uniform(-0.3, 1) * g * g / ((x - c) ** 2 + g * g)
        return y
    if f == "semi":
        D = np.abs(x).max() * rng.uniform(0.5, 1.0)
        return np.sqrt(np.maximum(1 - (x / D) ** 2, 0))
    return np.array([rng.uniform(-1, 1) for _ in x])


def kk(i):
    rng = ck.rng("kk", i)
    d = common.scratch(ck.tmp, "k", i)
    try:
        kind = rng.choice(["log", "lin", "rand"])
        f = rng.choice(["smooth", "peaks", "semi", "random"])
        p = mesh(rng, rng.randint(3, 60), kind)
        if rng.random() < 0.4:
            # points close to the end of the range, to zero and to one another
            ex = [p[-1] * (1 - 10 ** rng.uniform(-5, -1.5)) for _ in range(rng.randint(0, 2))] + [p[0] * 10 ** rng.uniform(-6, -0.5) for _ in range(rng.randint(0, 2))]
            ex += [float(rng.choice(p)) * (1 + 10 ** rng.uniform(-4, -2)) for _ in range(rng.randint(0, 2))]
            q = np.unique(np.concatenate([p, [e for e in ex if e < p[-1]]]))
            p = q[np.concatenate([[True], np.diff(q) > 5e-6 * q[1:]])]
            p[-1] = q[-1]
            f = rng.choice(["smooth", "smooth", "semi"])  # (steep steps between close points are beyond any quadrature)
        x = np.concatenate([-p[::-1], p])
        y = values(rng, x, f)
        if rng.random() < 0.4:
            y = y + rng.uniform(-2, 2) + rng.uniform(-1, 1) * x / x[-1]
        rows = list(zip(x, y))
        if rng.random() < 0.5:
            rng.shuffle(rows)
        std = rng.random() < 0.3
        tools.write(d + "/in.dat", rows, rng=rng, comments=True)
        fl = tools.files_of(d)
        if std:
            with open(d + "/in.dat") as g:
                r = tools.run("kk", ["-"], d, stdin=g.read().encode())
            o = r.out
            body = "\n".join(l for l in o.splitlines() if not l.startswith("KK"))
            T = tools.parse(body)
        else:
            r = tools.run("kk", ["in.dat", "out.dat"], d)
            T = tools.table(d + "/out.dat")
        if r.rc != 0 or T is None or T.shape != (len(x), 2):
            return case(f"kk/{i}", True, violations=[viol("kk-failed", f"kk on {kind}/{f} ({len(x)} points): exit {r.rc}, output {None if T is None else T.shape} {r.err[-300:]}", fl)])
        A = Akima(x, y)
        X = x[-1]
        c = Two()
        c.arr("kk: grid", T[:, 0], x, 1e-14 * np.abs(x))
        want = np.zeros(len(x))
        for j, z in enumerate(x):
            v = stieltjes(A, float(z), sub=float(y[j]))
            if 0 < j < len(x) - 1:
                v += y[j] * math.log((X - z) / (X + z))
            want[j] = v / math.pi
        sc = np.abs(y).max()
        for j in range(len(x)):
            c.near(f"kk {kind}/{f} at {x[j]!r}", T[j, 1], want[j], 1e-6 * sc, 2e-2 * sc)
        V = [viol("kk", c.what, dict(fl, output=o if std else common.slurp(d + "/out.dat")))] if c.what else []
        return case(f"kk/{i}", True, dict(transforms=len(x), kk_outliers=c.out), dict(tool="kk", kind=kind, f=f, n=len(x), std=std), V) | dict(near=(c.cnt, c.out, c.first))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def bethe(z, scale):
    """int rho/(z-w), rho = 2 scale/pi sqrt(1-(w scale)^2)"""
    s = z * scale
    r = np.sqrt(s * s - 1 + 0j)
    if (r.imag * s.imag) < 0 or (s.imag == 0 and r.real * s.real < 0):
        r = -r
    # 2 scale (s - sqrt(s^2-1)), without cancellation for large s
    return 2 * scale / (s + r)


def hilb(i):
    rng = ck.rng("hilb", i)
    d = common.scratch(ck.tmp, "h", i)
    try:
        tab = rng.random() < 0.6
        opts, S, scale = [], None, 1.0
        info = {}
        if tab:
            kind = rng.choice(["log", "lin", "rand"])
            f = rng.choice(["smooth", "peaks", "semi", "random"])
            p = mesh(rng, rng.randint(3, 50), kind)
            q = mesh(rng, rng.randint(3, 50), kind)
            x = {0: np.concatenate([-p[::-1], p]), 1: np.concatenate([-p[::-1], [0.0], q]), 2: p}[rng.choice([0, 0, 1, 2])]
            if len(x) < 3:
                x = np.concatenate([-p[::-1], p])
            y = values(rng, x, f)
            rows = list(zip(x, y))
            if rng.random() < 0.5:
                rng.shuffle(rows)
            tools.write(d + "/dos.dat", rows, rng=rng)
            opts += ["-d", "dos.dat"]
            S = Cubic(x, y)
            B = float(np.abs(x).max())
            h = np.diff(x)
            sc = max(float(np.abs(S.y[:-1] + t * h * (S.b + t * h * (S.c + t * h * S.d))).max()) for t in np.linspace(0, 1, 9))
            info.update(kind=kind, f=f, n=len(x))
        else:
            k = rng.choice(["none", "s", "B"])
            if k == "s":
                scale = rng.uniform(0.1, 5)
                opts += ["-s", repr(scale)]
            elif k == "B":
                b = rng.uniform(0.1, 5)
                scale = 1 / b
                opts += ["-B", repr(b)]
            B = 1 / scale
            sc = scale
            x = np.array([-B, 0, B])
        sx = sy = 0.0
        if rng.random() < 0.3:
            sx = rng.uniform(-0.5, 0.5)
            opts += ["-x", repr(sx)]
        if rng.random() < 0.2:
            sy = 10 ** rng.uniform(-6, -1)
            opts += ["-y", repr(sy)]
        G = rng.random() < 0.6
        if G:
            opts.append("-G")

        def edge(X, Y):
            """the value known to be wrong at the edges of the band (known finding): the
            analytic part alone"""
            z = complex(X + sx, Y + sy)
            yy = z.imag if abs(z.imag) > 1e-30 else 1e-30
            if abs(z.real) != B or abs(yy) >= 1e-3:
                return None
            rho = 0.0
            if S is not None and S.x[0] <= z.real <= S.x[-1]:
                rho = float(S.y[0] if z.real == S.x[0] else S.y[-1])
            re_ = rho * (-math.log((B - z.real) ** 2 + yy * yy) + math.log((B + z.real) ** 2 + yy * yy)) / 2
            im_ = rho * (math.atan((-B + z.real) / yy) - math.atan((B + z.real) / yy))
            return complex(re_, im_)

        def point():
            X = rng.choice([rng.uniform(-1.5 * B, 1.5 * B), rng.uniform(-B, B), float(rng.choice(x)), rng.choice([-1, 1]) * 10 ** rng.uniform(-9, 0) * B])
            k = rng.random()
            Y = rng.choice([-1, 1]) * (10 ** rng.uniform(-9, -3) if k < 0.4 else 10 ** rng.uniform(-3, 1) if k < 0.95 else rng.choice([1e-3, 1.0]))
            if rng.random() < 0.1:
                Y = 0.0
                if X in (x[0], x[-1]):
                    X *= 1.01  # on a jump the value on the axis is not defined
            return float(X), float(Y)

        def exact(X, Y):
            z = complex(X + sx, Y + sy)
            if z.imag == 0:
                z = complex(z.real, 1e-30)  # the limit from above
            if S is None:
                return bethe(z, scale)
            return -stieltjes(S, z)

        def tol(X, Y):
            return sc * (1 + abs(math.log(max(abs(Y + sy), 1e-30))))
        c = Two()
        known = []

        def cmp(what, got, want, X, Y, part):
            e = edge(X, Y)
            t = tol(X, Y)
            if e is not None and abs(got - want) > 1e-6 * t:
                e = getattr(e, part) * fac
                if abs(got - e) <= 1e-6 * t:
                    known.append(f"{what}: tool {float(got)!r}, expected {float(want)!r}")
                    return
            c.near(what, got, want, 1e-6 * t, 2e-2 * t)
        fac = 1.0
        mode = rng.choice([1, 1, 2, 3])
        fl = tools.files_of(d)
        npt = 0
        of = rng.random() < 0.3 and mode < 3
        oargs = ["-o", "o.dat"] if of else []
        bad = None
        if mode == 1:
            X, Y = point()
            r = tools.run("hilb", opts + oargs + ["--", repr(X), repr(Y)], d)
            t = open(d + "/o.dat").read() if of else r.out
            m = re.findall(r"[-+0-9.eE]+|nan|inf", t)
            if r.rc != 0 or len(m) != (2 if G else 1):
                bad = f"exit {r.rc}, output {t[:200]!r} {r.err[-200:]}"
            else:
                w = exact(X, Y)
                npt = 1
                if G:
                    cmp(f"Re hilb {opts} z=({X!r},{Y!r}) {info}", float(m[0]), w.real, X, Y, "real")
                cmp(f"Im hilb {opts} z=({X!r},{Y!r}) {info}", float(m[-1]), w.imag, X, Y, "imag")
        elif mode == 2:
            P = [point() for _ in range(rng.randint(1, 12))]
            tools.write(d + "/pts.dat", [(j, a, b) for j, (a, b) in enumerate(P)], rng=rng)
            r = tools.run("hilb", opts + oargs + ["pts.dat"], d)
            T = tools.table(d + "/o.dat") if of else tools.parse(r.out)
            if r.rc != 0 or T is None or T.shape != (len(P), 3 if G else 2):
                bad = f"exit {r.rc}, {None if T is None else T.shape} for {len(P)} points {r.err[-200:]}"
            else:
                for j, (X, Y) in enumerate(P):
                    w = exact(X, Y)
                    npt += 1
                    c("label", T[j, 0], j, 1e-12)
                    if G:
                        cmp(f"Re hilb {opts} z=({X!r},{Y!r}) {info}", T[j, 1], w.real, X, Y, "real")
                    cmp(f"Im hilb {opts} z=({X!r},{Y!r}) {info}", T[j, -1], w.imag, X, Y, "imag")
        else:
            n = rng.randint(1, 12)
            fac = 1.0 if G else -1 / math.pi
            om = sorted(float(v) for v in (rng.uniform(-1.3 * B, 1.3 * B) for _ in range(n)))
            re_ = [rng.uniform(-0.5, 0.5) for _ in om]
            im_ = [rng.choice([-1, -1, -1, 1]) * 10 ** rng.uniform(-7, 0.5) for _ in om]
            tools.write(d + "/rs.dat", list(zip(om, re_)), rng=rng)
            tools.write(d + "/is.dat", list(zip(om, im_)), rng=rng)
            r = tools.run("hilb", opts + ["rs.dat", "is.dat", "ro.dat", "io.dat"], d)
            R, I = tools.table(d + "/ro.dat"), tools.table(d + "/io.dat")
            if r.rc != 0 or R is None or I is None or R.shape != (n, 2) or I.shape != (n, 2):
                bad = f"exit {r.rc}, {None if R is None else R.shape} {r.err[-200:]}"
            else:
                for j in range(n):
                    X, Y = om[j] - re_[j], -min(im_[j], -1e-8)
                    w = exact(X, Y) * (1 if G else -1 / math.pi)
                    npt += 1
                    c("frequency", R[j, 0], om[j], 1e-14 * (1 + abs(om[j])))
                    c("frequency", I[j, 0], om[j], 1e-14 * (1 + abs(om[j])))
                    cmp(f"Re G(omega-Sigma) {opts} at {om[j]!r}-({re_[j]!r},{im_[j]!r}) {info}", R[j, 1], w.real, X, Y, "real")
                    cmp(f"Im G(omega-Sigma) {opts} at {om[j]!r}-({re_[j]!r},{im_[j]!r}) {info}", I[j, 1], w.imag, X, Y, "imag")
        if bad:
            return case(f"hilb/{i}", True, violations=[viol("hilb-failed", f"hilb {opts} mode {mode}: {bad}", fl)])
        V = [viol("hilb", c.what, fl)] if c.what else []
        if known:
            V.append(viol("hilb-band-edge", f"hilb with z exactly at the edge of the band: {known[0]}", fl))
        return case(f"hilb/{i}", True, dict(hilbert_points=npt, hilb_outliers=c.out), dict(tool="hilb", mode=mode, opts=opts, **info), V) | dict(near=(c.cnt, c.out, c.first))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def mats(i):
    rng = ck.rng("mats", i)
    d = common.scratch(ck.tmp, "m", i)
    try:
        Nz = rng.choice([1, 1, 2, 3, 10])
        one = rng.random() < 0.4
        col = rng.choice([None, None, "-2", "-3"])
        nc = 1 if col is None else 2
        shared = [rng.choice([-1, 1]) * 10 ** rng.uniform(-4, 0.5) for _ in range(8)]
        spec = []
        for z in range(Nz):
            n = rng.choice([0, 1, 200]) if rng.random() < 0.15 else rng.randint(1, 60)
            data = [[rng.choice(shared) if rng.random() < 0.4 else rng.choice([-1, 1, 0]) * 10 ** rng.uniform(-6, 1)] + [rng.uniform(-1, 1) for _ in range(nc)] for _ in range(n)]
            p = d if one and Nz == 1 else os.path.join(d, str(z + 1))
            os.makedirs(p, exist_ok=True)
            np.array(data, dtype=np.float64).reshape(-1, 1 + nc).tofile(os.path.join(p, "in.bin"))
            spec += [(r[0], r[2 if col == "-3" else 1] / Nz) for r in data]
        T = 10 ** rng.uniform(-5, 1)
        nm = rng.randint(1, 60)
        args = (["-o"] if one else []) + ([col] if col else []) + (["-v"] if rng.random() < 0.2 else []) + ["in.bin", Nz, repr(T), nm]
        r = tools.run("mats", args, d)
        o = tools.table(d + "/spec.dat")
        fl = {"input.txt": repr(spec)[:100000], "args": repr(args), "spec.dat": common.slurp(d + "/spec.dat")}
        if r.rc != 0 or o is None or o.shape != (nm, 3):
            return case(f"mats/{i}", True, violations=[viol("mats-failed", f"mats {args}: exit {r.rc}, output {None if o is None else o.shape} {r.err[-300:]}", fl)])
        w = math.pi * T * (2 * np.arange(nm) + 1)
        f = np.array([s[0] for s in spec])
        a = np.array([s[1] for s in spec])
        K = a[None, :] / (1j * w[:, None] - f[None, :])
        g = K.sum(1)
        tol = 1e-12 * np.abs(K).sum(1) + 1e-300
        c = tools.Cmp()
        c.arr(f"mats {args}: frequencies", o[:, 0], w, 1e-14 * w)
        c.arr(f"mats {args}: Re", o[:, 1], g.real, tol)
        c.arr(f"mats {args}: Im", o[:, 2], g.imag, tol)
        V = [viol("mats", c.what, fl)] if c.what else []
        return case(f"mats/{i}", len(spec) > 0, dict(matsubara_points=nm, peaks=len(spec)), dict(tool="mats", args=args, peaks=len(spec)), V)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global ck
    ck = common.Check("T05", "exploration",
                      "random tabulated functions on logarithmic, linear and random meshes, arguments above and below the axis, close to it and outside the band, "
                      "random peak sets; non-trivial = the printed transforms were compared with the transform of the same interpolant",
                      ["kk: Akima interpolant on a symmetric grid; hilb: natural cubic spline", "accuracy claimed: 1e-5 of the maximum of the function"])
    tools.need(["kk", "hilb", "mats"])
    rate("kk", ck.run(kk, range(ck.n(300, 6000))), LIMK)
    rate("hilb", ck.run(hilb, range(ck.n(1500, 20000))), LIMH)
    ck.run(mats, range(ck.n(300, 8000)))
    ck.finish()


common.main(main)
