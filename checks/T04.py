"""T04: broaden and bw. Monitor: every point of the spectra the tools write for
random peak sets, against the sum of the documented kernels over all peaks
(and, for bw, the iteration of Freyn and Florens carried out independently)."""
import os, sys, math, shutil, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common, tools
import numpy as np
from vlib.common import case, viol

ck = None
SQ = math.sqrt(math.pi)


def peaks(rng, d, Nz, one, nc, col, name="in.bin", positive=False, zero=True):
    dec = rng.choice([0, 1, 3, 6])
    shared = [rng.choice([-1, 1]) * 10 ** rng.uniform(-dec, 0.3) for _ in range(8)]
    acc = []
    for z in range(Nz):
        n = rng.choice([0, 1, 150]) if rng.random() < 0.15 else rng.randint(1, 60)
        rows = []
        for _ in range(n):
            f = rng.choice(shared) if rng.random() < 0.3 else rng.choice([-1, 1]) * 10 ** rng.uniform(-dec, 0.5)
            if zero and rng.random() < 0.04:
                f = 0.0
            rows.append([f] + [rng.uniform(0, 1) if positive else rng.choice([1, 1, 1, -1]) * 10 ** rng.uniform(-4, 0) for _ in range(nc)])
        p = d if one and Nz == 1 else os.path.join(d, str(z + 1))
        os.makedirs(p, exist_ok=True)
        np.array(rows, dtype=np.float64).reshape(-1, 1 + nc).tofile(os.path.join(p, name))
        acc += [(r[0], r[col] / Nz) for r in rows]
    m = {}
    for f, w in acc:
        m[f] = m.get(f, 0.0) + w
    f = np.array(sorted(m))
    return f, np.array([m[q] for q in f]), dec


def loggauss(e, p, alpha, a):
    """kernel matrix [mesh, peak]"""
    E = np.broadcast_to(e[:, None], (len(e), len(p)))
    P = np.broadcast_to(p[None, :], E.shape)
    up, dn = (E > a) & (P > a), (E < -a) & (P < -a)
    sh = np.where(up, a, np.where(dn, -a, 0.0))
    E, P = E - sh, P - sh
    ok = (E * P > 0)
    with np.errstate(all="ignore"):
        K = np.exp(-(np.log(np.where(ok, E / np.where(P == 0, 1, P), 1.0)) / alpha - alpha / 4) ** 2) / (alpha * np.abs(np.where(E == 0, 1, E)) * SQ)
    return np.where(ok, K, 0.0)


def broaden(i):
    rng = ck.rng("broaden", i)
    d = common.scratch(ck.tmp, "b", i)
    try:
        Nz = rng.choice([1, 1, 2, 3, 8])
        one = rng.random() < 0.4
        cs = rng.choice([None, None, "-2", "-3"])
        f, w, dec = peaks(rng, d, Nz, one, 1 if cs is None else 2, 2 if cs == "-3" else 1)
        alpha = rng.uniform(0.05, 1.2)
        T = 10 ** rng.uniform(-dec - 1, 0)
        args = (["-o"] if one else []) + ([cs] if cs else [])
        om0 = 1e-9 * T
        tail = []
        if rng.random() < 0.75:
            r0 = 10 ** rng.uniform(-2, 1)
            tail = [repr(r0)]
            om0 = r0 * T
        a = 0.0
        if rng.random() < 0.2:
            a = 10 ** rng.uniform(-3, -0.5)
            args += ["-a", repr(a)]
        mp = mn = True
        if rng.random() < 0.5:
            mx = rng.uniform(0.5, 5)
            mi = 10 ** rng.uniform(-dec - 2, -0.5)
            ra = rng.uniform(1.02, 1.5)
            args += ["-m", repr(mi), "-M", repr(mx), "-r", repr(ra)]
            k = rng.random()
            if k < 0.15:
                args.append("-A")
                mn = False
            elif k < 0.3:
                args.append("-B")
                mp = False
            x, z = [], mx
            while z > mi:
                x.append(a + z * (mx - a) / mx)
                z /= ra
            x = np.array(x)
            x = np.sort(np.concatenate(([x] if mp else []) + ([-x] if mn else [])))
        else:
            # a mesh from a file
            n = rng.randint(1, 80)
            x = [rng.choice([-1, 1]) * 10 ** rng.uniform(-dec - 1, 0.6) for _ in range(n)]
            x += [float(q) for q in rng.sample(list(f), min(len(f), 4)) if q]
            if rng.random() < 0.3:
                x.append(0.0)
            x = np.array(sorted(set(x)))
            x = x[np.abs(np.abs(x) - a) > 1e-12] if a else x
            tools.write(d + "/mesh.dat", [(q, rng.uniform(-1, 1)) for q in x], rng=rng)
            args += ["-L", "mesh.dat"]
        lo = hi = None
        if rng.random() < 0.25 and len(f):
            lo = rng.choice([abs(float(rng.choice(f))), 10 ** rng.uniform(-dec, 0)])
            args += ["-l", repr(lo)]
        if rng.random() < 0.25 and len(f):
            hi = rng.choice([abs(float(rng.choice(f))), 10 ** rng.uniform(-dec, 0)])
            args += ["-h", repr(hi)]
        keep = np.ones(len(f), bool)
        if lo is not None:
            keep &= np.abs(f) >= lo
        if hi is not None:
            keep &= np.abs(f) <= hi
        k = rng.random()
        if k < 0.12:
            args.append("-P")
            keep &= f >= 0
        elif k < 0.24:
            args.append("-N")
            keep &= f < 0
        norm = rng.random() < 0.4
        gauss = rng.random() < 0.2
        args += (["-n"] if norm else []) + (["-g"] if gauss else [])
        fg = rng.uniform(0.1, 3) if rng.random() < 0.2 else None
        fx = rng.uniform(0.1, 3) if rng.random() < 0.2 else None
        args += (["-f", repr(fg)] if fg else []) + (["-x", repr(fx)] if fx else [])
        cum = rng.random() < 0.35
        sums = rng.random() < 0.3
        args += (["-c"] if cum else []) + (["-s"] if sums else []) + (["-v"] if rng.random() < 0.1 else [])
        args += ["in.bin", Nz, repr(alpha), repr(T)] + tail
        r = tools.run("broaden", args, d)
        W = np.where(keep, w, 0.0)
        fl = {"peaks.txt": repr(list(zip(map(float, f), map(float, w))))[:200000], "args": " ".join(map(str, args)), "mesh.dat": common.slurp(d + "/mesh.dat"), "spec.dat": common.slurp(d + "/spec.dat"), "stdout": r.out[:3000], "stderr": r.err[-2000:]}
        o = tools.table(d + "/spec.dat")
        if r.rc != 0 or o is None or o.shape != (len(x), 2):
            return case(f"broaden/{i}", True, violations=[viol("broaden-failed", f"broaden {args}: exit {r.rc}, {None if o is None else o.shape} for {len(x)} mesh points {r.err[-300:]}", fl)])
        if gauss:
            K = np.exp(-((x[:, None] - f[None, :]) / alpha) ** 2) / (alpha * SQ)
        else:
            L = loggauss(x, f, alpha, a)
            with np.errstate(all="ignore"):
                G = np.exp(-((x[:, None] - f[None, :]) / om0) ** 2) / (om0 * SQ)
                h0 = lambda t: np.where(np.abs(t) > om0, 1.0, np.exp(-(np.log(np.abs(t) / om0) / alpha) ** 2))
                H = h0(f)[None, :] if norm else h0(x)[:, None]
            K = L * H + G * (1 - H)
        A = (K * W[None, :]).sum(1)
        S = (np.abs(K * W[None, :])).sum(1)
        for g, ker in ((fg, lambda t, s: np.exp(-(t / s) ** 2 / 2) / (s * math.sqrt(2 * math.pi))), (fx, lambda t, s: 0.25 / np.cosh(np.minimum(np.abs(t / s) / 2, 300)) ** 2 / s)):
            if g and len(x) > 2:
                s = g * T
                wd = (x[2:] - x[:-2]) / 2
                Kc = ker(x[1:-1, None] - x[None, 1:-1], s) * wd[None, :]
                c1, c2 = A.copy(), S.copy()
                sel = np.abs(x[1:-1]) < 100 * s
                c1[1:-1] = np.where(sel, Kc @ A[1:-1], A[1:-1])
                c2[1:-1] = np.where(sel, Kc @ S[1:-1], S[1:-1])
                A, S = c1, c2
        c = tools.Cmp()
        c.arr(f"broaden {fl['args']}: mesh", o[:, 0], x, 1e-12 * np.abs(x) + 1e-300)
        # a peak on the other side of a step of the kernel by rounding of the mesh
        c.arr(f"broaden {fl['args']}: A(omega)", o[:, 1], A, 1e-9 * S + 1e-300 + 1e-12 * S.max() * (1e-3 if len(x) else 0))
        npt = len(x)

        def printed(label):
            m = re.search(re.escape(label) + r"=(\S+)", r.out)
            return float(m.group(1)) if m else float("nan")
        tz = lambda v: float(((v[1:] + v[:-1]) / 2 * np.diff(x)).sum())
        c(f"broaden {fl['args']}: estimated weight", printed("Estimated weight (trapezoidal rule)"), tz(A), 1e-5 * abs(tz(A)) + 1e-9 * tz(S) + 1e-300)
        if cum:
            q = tools.table(d + "/cumulative.dat")
            want = np.array([W[f < t].sum() for t in x])
            ab = np.abs(W).sum()
            if q is None or q.shape != (len(x), 2):
                c.worst, c.what = np.inf, "cumulative.dat missing or of the wrong size"
            else:
                # mesh points that coincide with a peak up to rounding
                amb = np.array([np.any(np.abs(f - t) < 1e-12 * abs(t)) and not np.any(f == t) for t in x]) if len(f) else np.zeros(len(x), bool)
                c.arr("cumulative mesh", q[:, 0], x, 1e-12 * np.abs(x) + 1e-300)
                c.arr(f"broaden {fl['args']}: cumulative", np.where(amb, want, q[:, 1]), want, 1e-11 * ab + 1e-300)
                npt += len(x)
        if sums:
            ab = np.abs(W).sum()
            with np.errstate(all="ignore"):
                fe = 1 / (1 + np.exp(-f / T))
                bo = 1 / (1 - np.exp(-f / T))
                fi, bi = 1 / (1 + np.exp(f / T)), 1 / (1 - np.exp(f / T))
                for label, u in (("Total weight", np.ones(len(f))), ("Positive-omega weight", f > 0), ("Negative-omega weight", f < 0), ("Integral with fermionic kernel", fe),
                                 ("Integral with bosonic kernel", bo), ("Integral with fermionic kernel (omega -> -omega)", fi), ("Integral with bosonic kernel (omega -> -omega)", bi)):
                    t = np.where(np.isfinite(u), u, 0.0) * W
                    got = [float(v) for v in re.findall(r"(?m)^" + re.escape(label) + r"=(\S+)$", r.out)]
                    c(f"broaden {fl['args']}: {label}", got[-1] if got else float("nan"), float(t.sum()), 2e-5 * abs(t.sum()) + 1e-9 * float(np.abs(t).sum()) + 1e-300)
        V = [viol("broaden", c.what, fl)] if c.what else []
        return case(f"broaden/{i}", len(f) > 0, dict(mesh_points=npt, peaks=len(f), kernels=len(f) * len(x)), dict(tool="broaden", args=args, peaks=len(f), mesh=len(x)), V)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def bw(i):
    rng = ck.rng("bw", i)
    d = common.scratch(ck.tmp, "w", i)
    try:
        Nz = rng.choice([1, 1, 2, 4])
        one = rng.random() < 0.4
        f, w, dec = peaks(rng, d, Nz, one, 1, 1, positive=rng.random() < 0.8)
        b0 = rng.uniform(0.1, 1.2)
        mi = 10 ** rng.uniform(-dec - 3, -2)
        mx = rng.uniform(2, 20)
        ra = rng.uniform(1.02, 1.3)
        n = rng.choice([1, 1, 2, 3, 5])
        q = 1.0
        args = (["-o"] if one else []) + ["-m", repr(mi), "-M", repr(mx), "-r", repr(ra), "-n", n]
        trim = mi * 10
        if rng.random() < 0.4:
            trim = rng.choice([0.0, mi * 3, 10 ** rng.uniform(-3, 0)])
            args += ["-t", repr(trim)]
        if rng.random() < 0.4:
            q = rng.uniform(0.1, 3)
            args += ["-q", repr(q)]
        pos = rng.random() < 0.3
        args += ["-p"] if pos else []
        bmin = min(ra - 1, b0)
        if ra - 1 > b0 or rng.random() < 0.5:
            bmin = rng.uniform(0.01, 0.9) * b0
            args += ["-x", repr(bmin)]
        dyn = rng.uniform(0.01, 0.5) if rng.random() < 0.25 else None
        if dyn:
            args += ["-d", repr(dyn)]
            if "-x" not in args:
                bmin = 0.0
        every = rng.random() < 0.6
        args += ["-s"] if every else []
        args += ["in.bin", repr(b0), Nz]
        r = tools.run("bw", args, d)
        fl = {"peaks.txt": repr(list(zip(map(float, f), map(float, w))))[:200000], "args": " ".join(map(str, args)), "stderr": r.err[-2000:]}
        fl.update({k: v for k, v in tools.files_of(d).items() if k.startswith(("a", "b"))})
        if r.rc != 0:
            return case(f"bw/{i}", True, violations=[viol("bw-failed", f"bw {args}: exit {r.rc} {r.err[-300:]}", fl)])
        m = []
        z = mi
        while z < mx:
            m.append(z)
            z *= ra
        m.append(z * ra)
        m = np.array(m)
        m = np.sort(np.concatenate([m, -m]))
        b = np.full(len(f), b0)
        c = tools.Cmp()
        npt = 0
        stop = False

        def kern(b):
            with np.errstate(all="ignore"):
                E, P = m[:, None], f[None, :]
                same = (E < 0) == (P < 0)
                K = np.exp(-(np.log(np.where(same, E / P, 1.0)) / b - b / 4) ** 2) / (b * np.abs(E) * SQ)
            return np.where(same, K, 0.0)
        for it in range(1, n + 1):
            K = kern(b)
            A = K @ w
            S = K @ np.abs(w)
            if pos:
                A = np.where(A < 0, 1e-16, A)
            name = d + f"/a{it}.dat"
            if every or it == n:
                o = tools.table(name)
                sel = np.ones(len(m), bool) if trim == 0 else np.abs(m) >= trim
                edge = np.abs(np.abs(m) - trim) < 1e-9 * trim
                want = m[sel]
                if o is None or (o.shape != (len(want), 2) and not (edge.any() or len(want) == 0)):
                    c.worst, c.what = np.inf, f"bw {fl['args']}: a{it}.dat has {None if o is None else o.shape} rows, expected {len(want)}"
                    break
                if o.shape == (len(want), 2):
                    c.arr(f"bw {fl['args']}: mesh of a{it}", o[:, 0], want, 1.1e-5 * np.abs(want))
                    # six printed digits; later iterations amplify rounding in the logarithmic derivatives
                    c.arr(f"bw {fl['args']}: a{it}", o[:, 1], A[sel], 1.1e-5 * np.abs(A[sel]) + (1e-9 if it == 1 else 1e-4) * S[sel] + (0 if it == 1 else 1e-5 * np.abs(A).max() if len(A) else 0) + 1e-15)
                    npt += len(want)
            I = np.concatenate([[0.0], np.cumsum((A[1:] + A[:-1]) / 2 * np.diff(m))])
            j = np.searchsorted(m, 0.0)
            mid = (I[j - 1] + I[j]) / 2
            B_, C_ = I - mid, I[-1] - I

            def ld(v):
                with np.errstate(all="ignore"):
                    t = np.log(v[1:] / v[:-1]) / np.log(np.abs(m[1:] / m[:-1]))
                return np.concatenate([[0.0], np.where(np.isfinite(t), t, 0.0)])
            da, db, dc = ld(I), ld(B_), ld(C_)
            g = lambda u, v: b0 * q * (1 / (q + np.abs(u)) + 1 / (q + np.abs(v))) / 2
            bp, bn = g(db, dc), g(da, db)
            nb = np.where(f < 0, np.interp(f, m, bn), np.interp(f, m, bp))
            b = np.maximum(nb, bmin)
            if dyn and it < n:
                e = lambda i0, i1, i2: abs((A[i0] - (A[i1] + (A[i2] - A[i1]) / (m[i2] - m[i1]) * (m[i0] - m[i1]))) / A[i0])
                new = [m[0], -math.sqrt(m[0] * m[1]), m[1], m[-1], math.sqrt(m[-1] * m[-2]), m[-2]]
                with np.errstate(all="ignore"):
                    for k in range(2, j):
                        new.append(m[k])
                        t = e(k, k - 1, k - 2)
                        if abs(t - dyn) < 1e-6 * dyn:
                            stop = True
                        if t > dyn:
                            p = -math.sqrt(m[k] * m[k - 1])
                            if m[k - 1] < p < m[k]:
                                new.append(p)
                    for k in range(len(m) - 3, j - 1, -1):
                        new.append(m[k])
                        t = e(k, k + 1, k + 2)
                        if abs(t - dyn) < 1e-6 * dyn:
                            stop = True
                        if t > dyn:
                            p = math.sqrt(m[k] * m[k + 1])
                            if m[k] < p < m[k + 1]:
                                new.append(p)
                m = np.unique(np.array(new))
            if stop:
                break
        V = [viol("bw", c.what, fl)] if c.what else []
        return case(f"bw/{i}", npt > 0, dict(mesh_points=npt, iterations=n), dict(tool="bw", args=args, peaks=len(f)), V)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global ck
    ck = common.Check("T04", "exploration",
                      "random peak sets (both signs, zero frequency, repeated, several runs), kernels, meshes, filters and final convolutions; non-trivial = every "
                      "mesh point compared with the sum of the documented kernels over all peaks",
                      ["the mesh of broaden is sorted", "bw prints six digits"])
    tools.need(["broaden", "bw"])
    ck.run(broaden, range(ck.n(1200, 30000)))
    ck.run(bw, range(ck.n(400, 8000)))
    ck.finish()


common.main(main)
