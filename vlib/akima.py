"""Akima spline (H. Akima, J. ACM 17, 589 (1970)) with its exact integrals; the
degenerate case of equal slopes is linear on the interval, as in GSL"""
import numpy as np


class Akima:
    def __init__(self, x, y):
        x, y = np.asarray(x, float), np.asarray(y, float)
        self.x, self.y = x, y
        n = len(x)
        m = np.zeros(n + 3)
        h = np.diff(x)
        m[2:n + 1] = np.diff(y) / h
        m[1] = 2 * m[2] - m[3]
        m[0] = 3 * m[2] - 2 * m[3]
        m[n + 1] = 2 * m[n] - m[n - 1]
        m[n + 2] = 3 * m[n] - 2 * m[n - 1]
        self.b, self.c, self.d = np.zeros(n - 1), np.zeros(n - 1), np.zeros(n - 1)
        M = lambda k: m[k + 2]
        for i in range(n - 1):
            ne = abs(M(i + 1) - M(i)) + abs(M(i - 1) - M(i - 2))
            if ne == 0:
                self.b[i] = M(i)
                continue
            nn = abs(M(i + 2) - M(i + 1)) + abs(M(i) - M(i - 1))
            al = abs(M(i - 1) - M(i - 2)) / ne
            tn = M(i) if nn == 0 else (1 - abs(M(i) - M(i - 1)) / nn) * M(i) + abs(M(i) - M(i - 1)) / nn * M(i + 1)
            b = (1 - al) * M(i - 1) + al * M(i)
            self.b[i] = b
            self.c[i] = (3 * M(i) - 2 * b - tn) / h[i]
            self.d[i] = (b + tn - 2 * M(i)) / h[i] ** 2

    def __call__(self, t):
        t = np.asarray(t, float)
        k = np.clip(np.searchsorted(self.x, t, side="right") - 1, 0, len(self.x) - 2)
        s = t - self.x[k]
        return self.y[k] + s * (self.b[k] + s * (self.c[k] + s * self.d[k]))

    def deriv_bound(self):
        return np.abs(self.b) + 2 * np.abs(self.c) * np.diff(self.x) + 3 * np.abs(self.d) * np.diff(self.x) ** 2

    def piece(self, k, lo, hi):
        """exact integral over [lo,hi] inside interval k"""
        P = lambda s: s * (self.y[k] + s * (self.b[k] / 2 + s * (self.c[k] / 3 + s * self.d[k] / 4)))
        return P(hi - self.x[k]) - P(lo - self.x[k])

    def integral(self, lo=None, hi=None, absolute=False):
        lo = self.x[0] if lo is None else max(lo, self.x[0])
        hi = self.x[-1] if hi is None else min(hi, self.x[-1])
        tot = []
        for k in range(len(self.x) - 1):
            a, b = max(lo, self.x[k]), min(hi, self.x[k + 1])
            if a >= b:
                continue
            if not absolute:
                tot.append(self.piece(k, a, b))
                continue
            r = np.roots([self.d[k], self.c[k], self.b[k], self.y[k]]) if self.d[k] or self.c[k] or self.b[k] else []
            cut = sorted([a, b] + [self.x[k] + z.real for z in r if abs(z.imag) < 1e-9 * max(1e-300, abs(z)) and a < self.x[k] + z.real < b])
            tot += [abs(self.piece(k, u, v)) for u, v in zip(cut, cut[1:])]
        return float(np.sum(np.array(tot)))

    def dips(self):
        """area of the minority sign in intervals where the cubic changes sign twice or more or next to an end"""
        tot = 0.0
        for k in range(len(self.x) - 1):
            if not (self.d[k] or self.c[k]):
                continue
            h = self.x[k + 1] - self.x[k]
            r = np.roots([self.d[k], self.c[k], self.b[k], self.y[k]])
            c = sorted(z.real for z in r if abs(z.imag) < 1e-6 * max(1e-300, abs(z)) and -1e-6 * h < z.real < h * (1 + 1e-6))
            if not c:
                continue
            cut = [0.0] + [min(max(z, 0.0), h) for z in c] + [h]
            P = [self.piece(k, self.x[k] + u, self.x[k] + v) for u, v in zip(cut, cut[1:])]
            mi, ma = sorted([sum(p for p in P if p > 0), -sum(p for p in P if p < 0)])
            if len(c) > 1 or mi < 1e-3 * ma:
                tot += mi
        return tot

    def weighted(self, fn, breaks=()):
        """integral of the spline times a smooth function"""
        t, w = np.polynomial.legendre.leggauss(24)
        p = np.unique(np.concatenate([self.x, [b for b in breaks if self.x[0] < b < self.x[-1]]]))
        h, mid = np.diff(p) / 2, (p[1:] + p[:-1]) / 2
        X = mid[:, None] + h[:, None] * t[None, :]
        # evaluate with the interval's own polynomial
        k = np.clip(np.searchsorted(self.x, mid, side="right") - 1, 0, len(self.x) - 2)[:, None]
        s = X - self.x[k]
        Y = self.y[k] + s * (self.b[k] + s * (self.c[k] + s * self.d[k]))
        return float((h[:, None] * w[None, :] * Y * fn(X)).sum())
