"""Reference spectral functions: Lehmann peaks of the independent NRG (phys.RefNRG),
the documented coarse-graining mesh, patching rule, Matsubara transform and
broadening kernels, written from the definitions (not from /repo's code)."""
import math
import numpy as np
from .phys import UP, DO


def thermal_rho(R, T):
    """reduced density matrices of rho = exp(-H_last/T)/Z of the last shell's kept states"""
    n = len(R.steps)
    st = R.steps[-1]
    k = st.get("nlast", len(st["E"]))
    w = np.zeros(len(st["E"]))
    w[:k] = np.exp(-(st["E"][:k] - st["E"][0]) / T)
    rho = [None] * n
    rho[-1] = np.diag(w / w.sum())
    for it in range(n - 2, -1, -1):
        s = R.steps[it]
        k = s["nkeep"]
        dim = len(s["E"])
        nx = R.steps[it + 1]
        full = nx["U"] @ rho[it + 1] @ nx["U"].T
        mm = full.shape[0] // k
        M = np.zeros((dim, dim))
        M[:k, :k] = full.reshape(k, mm, k, mm).trace(axis1=1, axis2=3)
        rho[it] = M
    return rho


def kept_range(R, it):
    """states the algorithms without a complete basis see at this step"""
    st = R.steps[it]
    if it == len(R.steps) - 1:
        return st.get("nlast", len(st["E"]))
    return st["nkeep"]


def parts(a, b, r, sign, conv):
    """greater and lesser weights w[p,1] at E1-Ep. The reduced density matrix is not diagonal, so the
    excitation energy can be read off either operator (both exact for a stationary state):
    conv[0], conv[1] in 'AB' say which one is used for the greater and the lesser part"""
    gt = a * (b @ r).T if conv[0] == "A" else (r @ a) * b.T
    ls = a * (r @ b).T if conv[1] == "A" else (a @ r) * b.T
    return gt, sign * ls


def shells(R, rho, A, B, sign, conv="AA"):
    """complete-basis peaks per step: list of (omega, greater weights, lesser weights (with sign))"""
    out = []
    for it, st in enumerate(R.steps):
        k = st["nkeep"]
        E = st["E"]
        a, b = A(st), B(st)
        r = rho[it]
        gt, ls = parts(a, b, r, sign, conv)
        Om = E[None, :] - E[:, None]
        mask = np.ones_like(gt, bool)
        if it < len(R.steps) - 1:
            mask[:k, :k] = False
        out.append((Om[mask], gt[mask], ls[mask]))
    return out


def ft_pairs(R, it, A, B, sign, T):
    """kept x kept Lehmann peaks of shell `it` at temperature T: (omega, weight, E_initial, E_final, m, Z)"""
    st = R.steps[it]
    k = kept_range(R, it)
    E = st["E"][:k] - st["E"][0]
    a, b = A(st)[:k, :k], B(st)[:k, :k]
    # C = sum_{p,1} <p|A|1><1|B|p> (e^{-bEp} + sign e^{-bE1})/Z delta(w-(E1-Ep))
    m = a * b.T
    x = np.exp(-E / T)
    Z = x.sum()
    w = m * (x[:, None] + sign * x[None, :]) / Z
    return E[None, :] - E[:, None], w, E, m, Z


def dm_pairs(R, it, rho, A, B, sign, conv="AB"):
    st = R.steps[it]
    k = kept_range(R, it)
    E = st["E"][:k] - st["E"][0]
    a, b, r = A(st)[:k, :k], B(st)[:k, :k], rho[it][:k, :k]
    gt, ls = parts(a, b, r, sign, conv)
    return E[None, :] - E[:, None], gt, ls


class Mesh:
    def __init__(self, emin, emax, bins):
        self.emin = emin
        self.l0, self.l1, self.b = math.floor(math.log10(emin)), math.ceil(math.log10(emax)), bins
        n = int((self.l1 - self.l0) * bins + 1.0)
        self.e = 10.0 ** (self.l0 + np.arange(n) / bins)

    def hist(self, om, w):
        """(pos, neg) coarse-grained weights; the weight of a peak is split between the two
        neighbouring representative energies linearly in log10 of the energy"""
        res = []
        om, w = np.ravel(om), np.ravel(w)
        for sel, sg in ((om >= 0, 1.0), (om < 0, -1.0)):
            e, ww = sg * om[sel], w[sel]
            h = np.zeros(len(self.e))
            low = e < self.emin
            h[0] += ww[low].sum()
            e, ww = e[~low], ww[~low]
            x = (np.log10(e) - self.l0) * self.b
            i = np.floor(x).astype(int)
            under, over = i < 0, i >= len(self.e) - 1
            h[0] += ww[under].sum()
            h[-1] += ww[over].sum()
            mid = ~(under | over)
            i, x, ww = i[mid], x[mid], ww[mid]
            np.add.at(h, i, (1 - (x - i)) * ww)
            np.add.at(h, i + 1, (x - i) * ww)
            res.append(h)
        return res


def window(e, Emin, Ex, Emax, first, last, tanh=0.0):
    """N/N+n patching function of the energy; vanishing outside (Emin, Emax)"""
    f = lambda x: x
    if tanh > 0:
        g = lambda x: np.tanh(tanh * (x - 0.5))
        f = lambda x: (g(x) - g(0.0)) / (g(1.0) - g(0.0))
    w = np.where(e <= Ex, f((e - Emin) / (Ex - Emin)), 1 - f((e - Ex) / (Emax - Ex)))
    if last:
        w = np.where(e <= Ex, 1.0, w)
    if first:
        w = np.where(e >= Ex, 1.0, w)
    return np.where((e > Emin) & (e < Emax), w, 0.0)


def patched(m, R, mesh, peaks_at, opt, prefilter=False, seed=False):
    """merge shells by the N/N+2 (or N/N+1) rule. peaks_at(it)->(om,w) over kept states.
    opt: goodE, NN1, NN2even, NN2avg, NNtanh"""
    nst = len(R.steps) - 1
    pos, neg = np.zeros(len(mesh.e)), np.zeros(len(mesh.e))
    f = m.Lambda if (m.nch == 1 and not opt.get("NN1")) else math.sqrt(m.Lambda)
    f = opt["f"] if "f" in opt else f
    for it in range(0 if seed else 1, nst + 1):
        ndx = max(it - 1, 0)
        use = opt.get("NN1") or opt.get("NN2avg") or (ndx % 2 == (0 if opt.get("NN2even", True) else 1))
        if not use:
            continue
        Emin = m.scale(it) * opt["goodE"]
        Ex, Emax = Emin * f, Emin * f * f
        om, w = peaks_at(it)
        if prefilter:
            ok = (np.abs(om) >= Emin) & (np.abs(om) <= Emax)
            om, w = om[ok], w[ok]
        p, n = mesh.hist(om, w)
        fac = window(mesh.e, Emin, Ex, Emax, it <= 1, it == nst, opt.get("NNtanh", 0.0)) * (0.5 if opt.get("NN2avg") else 1.0)
        pos += p * fac
        neg += n * fac
    return pos, neg


def mats_freq(n, fermion, T):
    return math.pi * T * (2 * n + (1 if fermion else 0))


def mats(om, w, zero_w, fermion, T, nmats):
    """G(i w_n) = sum w/(i w_n - om); for bosons at n=0 degenerate pairs contribute zero_w"""
    om, w, zero_w = np.ravel(om), np.ravel(w), np.ravel(zero_w)
    out = np.zeros(nmats, complex)
    for n in range(nmats):
        z = 1j * mats_freq(n, fermion, T)
        if fermion or n > 0:
            out[n] = (w / (z - om)).sum()
        else:
            deg = np.abs(om) <= 1e-8
            out[n] = (w[~deg] / (-om[~deg])).sum() + zero_w[deg].sum()
    return out


# ------------------------------------------------------------------ broadening
def br_l(e, ept, alpha):
    """modified log-Gaussian, Weichselbaum & von Delft, gamma = alpha/4"""
    out = np.zeros(np.broadcast(e, ept).shape)
    e, ept = np.broadcast_to(e, out.shape), np.broadcast_to(ept, out.shape)
    ok = (e * ept > 0)
    out[ok] = np.exp(-(np.log(e[ok] / ept[ok]) / alpha - alpha / 4) ** 2) / (alpha * np.abs(e[ok]) * math.sqrt(math.pi))
    return out


def br_g(e, ept, w0):
    return np.exp(-((e - ept) / w0) ** 2) / (w0 * math.sqrt(math.pi))


def br_engine(e, ept, alpha, w0):
    """smooth crossover from log-Gaussian (|e|>w0) to Gaussian kernel, in terms of e"""
    e = np.asarray(e, float)
    L = br_l(e, ept, alpha)
    h = np.where(np.abs(e) > w0, 1.0, np.exp(-(np.log(np.abs(e) / w0) / alpha) ** 2))
    return L * h + br_g(e, ept, w0) * (1 - h)
