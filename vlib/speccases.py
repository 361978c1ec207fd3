"""models, operator lists and file readers shared by the checks of spectral functions"""
import math, os
import numpy as np
from . import cases, nrgrun
from .phys import UP, DO

SHAPES = [(1, 1, 4, {}, 45), (1, 1, 4, dict(field=True), 40), (1, 1, 3, dict(field=True, pol=True), 40), (1, 1, 4, dict(sc=True), 45),
          (1, 1, 3, dict(bx=True), 40), (2, 1, 3, {}, 60), (1, 2, 2, {}, 60), (1, 1, 5, dict(ph=True), 40), (1, 1, 2, {}, 0),
          (1, 2, 2, dict(field=True), 40), (1, 1, 7, {}, 30), (1, 1, 3, dict(sc=True, field=True), 40), (1, 2, 1, dict(substeps=True), 50),
          (1, 2, 1, dict(sc=True), 0)]


def spec_list(m, sym):
    """[(parameter, name in the list, file stem, fermion?, [(A, B) operator keys])]"""
    out = []
    pairs = [("A_d", "A_d"), ("A_d", "A_f"), ("A_f", "A_d")]
    for a, b in pairs:
        if sym in ("U1", "NONE", "P"):
            for s, suf in ((UP, "_u"), (DO, "_d")):
                n = f"{a}{suf}-{b}{suf}"
                out.append(("specd", n, "spec_%s_dens_" + n, True, [((a, s), (b, s))]))
        elif sym in ("QSZ", "SPU1"):
            for s, suf in ((UP, "-u"), (DO, "-d")):
                n = f"{a}-{b}{suf}"
                out.append(("specd", n, "spec_%s_dens_" + n, True, [((a, s), (b, s))]))
        else:
            n = f"{a}-{b}"
            out.append(("specd", n, "spec_%s_dens_" + n, True, [((a, UP), (b, UP)), ((a, DO), (b, DO))]))
    for a, b in (("n_d0", "n_d0"), ("hop0", "n_d0"), ("SdSf0", "SdSf0")):
        n = f"{a}-{b}"
        out.append(("specs", n, "corr_%s_dens_" + n, False, [((a, None), (b, None))]))
    if m.ops.get("S_d") and sym in ("QS", "SPSU2"):
        out.append(("spect", "S_d-S_d", "spin_%s_dens_S_d-S_d", False, [(("S_d", 0), ("S_d", 0))]))
    if m.ops.get("S_d") and sym in ("QSZ", "SPU1"):
        out.append(("spect", "S_d-S_d", "spin_%s_dens_S_d-S_d", False, [(("S_d", 0), ("S_d", 0)), (("S_d", 1), ("S_d", 1)), (("S_d", -1), ("S_d", -1))]))
    return out


def norm(param, sym, keys):
    """several components of an irreducible tensor: SU(2) types report the average, abelian types the sum"""
    return 1.0 / len(keys) if (param == "specd" or sym in ("QS", "SPSU2")) else 1.0


def find(d, stem, algo):
    for n in (stem % algo,):
        if os.path.exists(os.path.join(d, n + ".bin")) or os.path.exists(os.path.join(d, n + ".dat")):
            return os.path.join(d, n)
    return None


def read_hist(path, mesh):
    b = nrgrun.read_bin(path)
    pos, neg = np.zeros(len(mesh.e)), np.zeros(len(mesh.e))
    for e, w in b:
        i = int(round((math.log10(abs(e)) - mesh.l0) * mesh.b))
        if not 0 <= i < len(mesh.e) or abs(abs(e) / mesh.e[i] - 1) > 1e-9:
            return None, f"energy {e!r} is not a representative point of the mesh"
        (pos if e > 0 else neg)[i] += w
    return (pos, neg), None


def setup(ck, i, triplet=True):
    rng = ck.rng("case", i)
    nimp, nch, Nmax, o, target = SHAPES[i % len(SHAPES)]
    o = dict(o)
    sub = o.pop("substeps", False)
    m = cases.general(rng, nimp, nch, Nmax + 1, Lambda=rng.choice([2.0, 2.5, 3.0, 4.0]), triplet=not o.get("bx") and triplet and not sub, **o)
    m.substeps = sub
    syms = cases.symmetries(m)
    if sub:
        syms = [s for s in syms if s in ("QS", "QSZ", "SPSU2", "SPU1")]
    sym = syms[(i // len(SHAPES) + rng.randrange(len(syms))) % len(syms)]
    nst = Nmax * nch if sub else Nmax
    ke, R = cases.truncated(rng, m, nst, target, substeps=sub)
    return rng, m, sym, Nmax, nst, ke, R, target
