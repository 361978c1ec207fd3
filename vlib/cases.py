"""random models, the symmetries that can represent them, engine runs and the
comparison of what the engine reports with the independent reference"""
import math, os, re
import numpy as np
from . import phys, nrgrun
from .phys import UP, DO, Model, lam_scale


def general(rng, nimp=1, nch=1, Nmax=3, field=False, bx=False, pol=False, sc=False, ph=False, kappa=False, Lambda=None, z=None,
            weak=False, same_ch=False, triplet=False):
    """impurity of nimp interacting orbitals coupled to nch channels"""
    Lambda = Lambda or rng.choice([1.7, 2.0, 2.5, 3.0, 4.0])
    z = z or rng.choice([1.0, 1.0, 0.5, 0.75, 0.3])
    ns = 2 if pol else 1
    def tab(f):
        out = []
        for ch in range(nch):
            if same_ch and ch > 0:
                out.append(out[0])
                continue
            t = [[f(n) for n in range(Nmax + 1)] for _ in range(ns)]
            out.append(t if pol else t[0])
        return out
    sc_ = lambda n: lam_scale(Lambda, z, n)
    xi = tab(lambda n: sc_(n + 1) * rng.uniform(0.6, 1.3))
    zeta = tab(lambda n: 0.0 if ph else sc_(n + 1) * rng.uniform(-0.6, 0.6))
    eps = [rng.uniform(-1.5, 0.5) for _ in range(nimp)]
    U = [rng.uniform(0.1, 2.0) for _ in range(nimp)]
    if ph:
        eps = [-u / 2 for u in U]
    U12 = rng.uniform(0, 0.6) if nimp > 1 and not ph else 0.0
    t12 = rng.uniform(0.05, 0.5)
    J12 = rng.uniform(-0.4, 0.4)
    V = [[rng.uniform(0.15, 0.6) * rng.choice([1, -1]) for _ in range(nch)] for _ in range(nimp)]
    B = [rng.uniform(-0.5, 0.5) if field else 0.0 for _ in range(nimp)]
    Bx = [rng.uniform(-0.5, 0.5) if bx else 0.0 for _ in range(nimp)]
    delta = kap = None
    if sc:
        delta = [[sc_(n + 1) * rng.uniform(-0.7, 0.7) for n in range(Nmax + 1)] for _ in range(nch)]
        if kappa:
            kap = [[sc_(n + 1) * rng.uniform(-0.4, 0.4) for n in range(Nmax + 1)] for _ in range(nch)]

    def himp(F):
        H = 0 * F.I()
        for i in range(nimp):
            H = H + eps[i] * F.num(i) + U[i] * (F.n(i, UP) @ F.n(i, DO))
            if field:
                H = H + B[i] * F.Sz(i)
            if bx:
                H = H + 0.5 * Bx[i] * (F.Sp(i) + F.Sp(i).T)
            for ch in range(nch):
                H = H + V[i][ch] * F.hop(i, nimp + ch)
        if nimp > 1:
            H = H + t12 * F.hop(0, 1) + J12 * F.SS(0, 1) + U12 * (F.num(0) @ F.num(1))
        for ch in range(nch):
            for s in (UP, DO):
                zt = (zeta[ch][s] if pol else zeta[ch])[0]
                H = H + zt * F.n(nimp + ch, s)
            if sc:
                p = F.cd[(nimp + ch, UP)] @ F.cd[(nimp + ch, DO)]
                H = H + delta[ch][0] * (p + p.T)
        return H

    ops = {}
    for i in range(nimp):
        ops[f"n_d{i}"] = ("s", lambda F, i=i: F.num(i))
        ops[f"n_d{i}^2"] = ("s", lambda F, i=i: F.num(i) @ F.num(i))
    for ch in range(nch):
        ops[f"hop{ch}"] = ("s", lambda F, ch=ch: F.hop(0, nimp + ch))
        ops[f"SdSf{ch}"] = ("s", lambda F, ch=ch: F.SS(0, nimp + ch))
    ops["n_f"] = ("s", lambda F: F.num(nimp))
    ops["A_d"] = ("d", lambda F: {UP: F.cd[(0, UP)], DO: F.cd[(0, DO)]})
    ops["A_f"] = ("d", lambda F: {UP: F.cd[(nimp, UP)], DO: F.cd[(nimp, DO)]})
    if triplet:
        ops["S_d"] = ("t", lambda F: {0: F.Sz(0), 1: -F.Sp(0) / math.sqrt(2), -1: F.Sp(0).T / math.sqrt(2)})
    if sc:
        ops["pair"] = ("s", lambda F: F.cd[(0, UP)] @ F.cd[(0, DO)] + F.c[(0, DO)] @ F.c[(0, UP)])
    if bx:
        ops = {k: v for k, v in ops.items()}
    m = Model(nimp, nch, Lambda, z, xi, zeta, himp, ops, name="imp%d-ch%d%s%s%s%s%s" % (
        nimp, nch, "-B" if field else "", "-Bx" if bx else "", "-pol" if pol else "", "-sc" if sc else "", "-ph" if ph else ""))
    m.polarized = pol
    m.bx, m.field, m.sc = bx, field, sc
    m.delta, m.kappa = delta, kap
    if field or pol:
        if not bx:
            ops["SZd"] = ("s", lambda F: F.Sz(0))
    m.params = dict(eps=eps, U=U, V=V, B=B, Bx=Bx, U12=U12, t12=t12, J12=J12)
    return m


def symmetries(m):
    if m.bx:
        return ["P", "NONE"] if m.sc else ["U1", "P", "NONE"]
    if m.sc:
        r = ["SPU1", "P", "NONE"] + ([] if m.field or m.polarized else ["SPSU2"])
        return r
    if m.field or m.polarized:
        return ["QSZ", "SPU1", "U1", "P", "NONE"]
    return ["QS", "QSZ", "SPSU2", "SPU1", "U1", "P", "NONE"]


def singlets(m):
    return [n for n, (t, f) in m.ops.items() if t == "s"]


def labels(m):
    if m.bx:
        return "P" if m.sc else "N"
    return "PS" if m.sc else "NS"


def base_params(m, sym, **kw):
    p = dict(symtype=sym, Lambda=repr(m.Lambda), z=repr(m.z), keep=100000, T=0.1, safeguard=SAFEGUARD, safeguardmax=1000, prec_td=15, prec_custom=15, width_td=25,
             width_custom=25, ops=" ".join(singlets(m)))
    if m.polarized:
        p["polarized"] = "true"
    p.update(kw)
    return p


def mult(sym, lab):
    """number of states of a multiplet with these quantum numbers"""
    if sym in ("QS",):
        return lab[1]
    if sym == "SPSU2":
        return lab[0]
    return 1


def write_case(d, m, sym, Nmax, params, cplx=None, ops=None, extra=None, scale_energies=True):
    with open(os.path.join(d, "data"), "w") as f:
        f.write(phys.data_file(m, sym, Nmax, cplx=cplx, ops=ops, scale_energies=scale_energies))
    with open(os.path.join(d, "param"), "w") as f:
        f.write(nrgrun.param_text(params, extra))


def case_files(d, extra=()):
    r = {}
    for n in ("data", "param") + tuple(extra):
        p = os.path.join(d, n)
        if os.path.exists(p):
            with open(p, "rb") as f:
                r[n] = f.read(3000000)
    return r


def spectrum(d, sym, it_scale):
    """multiplicity-expanded absolute excitation energies per iteration"""
    res = []
    for k, it in enumerate(nrgrun.read_energies(os.path.join(d, "energies.nrg"))):
        a = []
        for lab, e in it.items():
            q = [int(x) for x in lab.split()]
            a += list(e) * mult(sym, q)
        res.append(np.sort(np.array(a)) * it_scale(k))
    return res


def close(a, b, rtol, atol):
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


class NoGap(Exception):
    pass


SAFEGUARD = 3e-5   # between "degenerate" (<1e-5) and "gap" (>1e-4) of the reference


def truncated(rng, m, Nmax, target, tries=12, light=False, substeps=False, maxkeep=420):
    """a keepenergy that truncates steps 1..Nmax-1 inside clear gaps; returns (keepenergy, RefNRG)"""
    if target == 0:
        return 1e6, phys.RefNRG(m, Nmax, labels=labels(m), substeps=substeps, light=light)
    for _ in range(tries):
        ke = None

        def rule(it, exc, st):
            nonlocal ke
            if it == 0:
                return len(exc)
            x = exc / m.scale(it)
            if ke is None:
                # choose the cut at the first truncated step
                if len(x) <= target:
                    return len(x)
                t = int(target * rng.uniform(0.6, 1.4))
                t = min(max(t, 4), len(x) - 1)
                gaps = [(x[k + 1] - x[k], k) for k in range(max(2, t - 12), min(len(x) - 1, t + 12))]
                g, k = max(gaps)
                ke = float(x[k] + 0.5 * g)
            # documented rule: the states below keepenergy and one more, extended to a gap of at least `safeguard`
            c = int((x <= ke).sum())
            n = min(c + 1, len(x))
            while n < len(x) and x[n] - x[n - 1] < 1e-5:
                n += 1
            if n > maxkeep:
                raise NoGap()
            if c < len(x) and min(abs(x[c] - ke), abs(x[c - 1] - ke)) < 1e-3:
                raise NoGap()
            if n < len(x) and x[n] - x[n - 1] < 1e-4:
                raise NoGap()
            return n
        try:
            R = phys.RefNRG(m, Nmax, keep_rule=rule, labels=labels(m), substeps=substeps, light=light)
            return (ke if ke is not None else 1e6), R
        except NoGap:
            continue
    raise NoGap()
