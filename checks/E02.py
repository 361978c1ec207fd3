"""E02: results do not depend on the symmetry type used to represent a model.
(a) random models with one to three channels, written in several symmetry types, truncated at a common energy cut-off;
(b) the groups of equivalent inputs among the regression tests (channel parity, isospin and other exotic symmetries), with
    new Wilson-chain coefficients. Monitors compare td, custom, the spectra of eigenvalues and the spectral functions."""
import glob, math, os, re, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common, build, cases, nrgrun, speccases, phys
import numpy as np
from vlib.common import case, viol

ck = common.Check("E02", "exploration",
                  "a case counts if the same model was run in at least two symmetry types and their reports were compared",
                  ["the inputs of the regression tests grouped here describe the same model (true for the coefficients stored with them)"])
NRG = None
SKIPCOL = {"T"}


def compare_tables(what, a, b, tol, files):
    """two lists of dicts, common columns"""
    n = 0
    if len(a) != len(b):
        return [viol("rows", f"{what}: {len(a)} and {len(b)} rows", files)], 0
    for i, (x, y) in enumerate(zip(a, b)):
        for k in x:
            if k in y:
                n += 1
                if not abs(x[k] - y[k]) <= tol * (1 + max(abs(x[k]), abs(y[k]))):
                    return [viol("value", f"{what}: row {i}, {k}: {x[k]!r} and {y[k]!r}", files)], n
    return [], n


def dat(p):
    try:
        return np.loadtxt(p, ndmin=2)
    except (OSError, ValueError):
        return None


def compare_dat(what, A, B, tol, files, skip0=False):
    """columns: frequency, values"""
    if A.shape != B.shape:
        return [viol("shape", f"{what}: tables of {A.shape} and {B.shape}", files)]
    if A.size == 0:
        return []
    if skip0:
        A, B = A[1:], B[1:]
        if not len(A):
            return []
    sc = np.abs(A[:, 1:]).max(initial=0)
    d = np.abs(A - B)
    d[:, 0] /= np.maximum(1e-300, np.abs(A[:, 0]))
    d[:, 1:] /= 1e-12 + sc
    if not (d <= tol).all():
        k = int(np.argmax(np.nan_to_num(d, nan=1e9).max(axis=1)))
        return [viol("spectral", f"{what}: at {A[k, 0]:.6g}: {A[k, 1:]!r} and {B[k, 1:]!r} (largest value {sc:.6g})", files)]
    return []


# ---------------------------------------------------------------- generated models
SHAPES = [(1, 1, 4, {}), (1, 2, 2, {}), (1, 3, 1, {}), (1, 1, 4, dict(field=True)), (1, 2, 2, dict(field=True)), (1, 1, 5, dict(sc=True)),
          (1, 2, 2, dict(sc=True)), (2, 1, 3, {}), (1, 1, 4, dict(field=True, pol=True)), (1, 2, 2, dict(field=True, pol=True)),
          (1, 2, 2, dict(substeps=True)), (1, 3, 1, dict(substeps=True)), (1, 2, 2, dict(substeps=True, field=True)),
          (1, 1, 3, dict(bx=True)), (1, 2, 2, dict(sc=True, field=True)), (2, 2, 1, {}), (1, 1, 8, {}),
          (1, 2, 2, dict(substeps=True, sc=True))]


def usable(m, syms, nch, sub):
    s = [x for x in syms if not (sub and x not in ("QS", "QSZ", "SPSU2", "SPU1"))]
    lim = dict(QS=4, QSZ=3, U1=3, SPSU2=3, SPU1=2, NONE=2, P=2)
    s = [x for x in s if lim[x] >= nch]
    if nch == 3 or m.nimp * nch > 3:
        s = [x for x in s if x not in ("U1",)]
    if nch == 2 and not sub:
        s = [x for x in s if x not in ("NONE", "P")]
    return s


def generated(i):
    rng = ck.rng("gen", i)
    nimp, nch, Nmax, o = SHAPES[i % len(SHAPES)]
    o = dict(o)
    sub = o.pop("substeps", False)
    m = cases.general(rng, nimp, nch, Nmax + 1, Lambda=rng.choice([2.0, 2.5, 3.0, 4.0]), triplet=not o.get("bx") and not sub, **o)
    m.substeps = sub
    syms = usable(m, cases.symmetries(m), nch, sub)
    if len(syms) < 2:
        syms = [s for s in cases.symmetries(m) if s in ("SPU1", "SPSU2", "QSZ", "QS", "U1") and not (nch > 2 and s == "SPU1")]
    if len(syms) < 2:
        return case(f"gen/{i}", False, dict(skipped=1))
    first = syms[0]
    rest = syms[1:]
    rng.shuffle(rest)
    if nch == 3 and not sub and not ck.thorough:
        rest = ["QSZ"]        # the others take minutes
    pick = [first] + rest[:ck.n(1 if nch == 3 and not sub else 2, 4)]
    spectra = nch < 3 and rng.random() < 0.6
    T = m.scale(rng.uniform(0.5, Nmax))
    kw = dict(T=repr(T), betabar=repr(rng.choice([0.1, 0.5, 1.0, 2.0])), keepenergy=repr(round(rng.uniform(2.0, 4.5) if nch * nimp == 1 and not o.get("sc") else rng.uniform(1.8, 2.8), 3)), keepmin=0, dumpenergies="true", fdm="true", fdmexpv="true",
              fdmexpvn=rng.randrange(0, Nmax), dm="true", prec_xy=15, bins=200, savebins="true", mats=12, safeguard="1e-4", safeguardmax=1000)
    if nch == 3 and not sub:
        kw.pop("fdm"), kw.pop("fdmexpv"), kw.pop("dm")
    if sub:
        kw["substeps"] = "true"
    if spectra:
        kw.update({k: "true" for k in rng.sample(["finite", "dmnrg", "cfs", "finitemats", "dmnrgmats", "fdmmats"], 4)})
    base = common.scratch(ck.tmp, "g", i)
    cplx = rng.random() < 0.25
    strat = rng.choice(["all", "kept"])
    try:
        res, obs, vs = [], {}, []
        for k, sym in enumerate(pick):
            d = f"{base}/{k}"
            os.makedirs(d)
            sl = speccases.spec_list(m, sym) if spectra else []
            by = {}
            for par, name, stem, fermi, keys in sl:
                by.setdefault(par, set()).add(name)
            # the lists of operators are those of the other checks
            lists = {p: " ".join(sorted(v)) for p, v in by.items()}
            p = cases.base_params(m, sym, strategy=strat, **{**kw, **lists})
            cases.write_case(d, m, sym, Nmax, p, cplx=ck.rng("ph", i, k) if cplx else None)
            r = nrgrun.run([NRG], d, timeout=170)
            if os.environ.get("VERIF_PROF"):
                print(i, m.name, sym, kw["keepenergy"], Nmax, sub, spectra, round(r.wall, 1), flush=True)
            if r.timeout:
                continue
            files = {f"{n}.{sym}": v for n, v in cases.case_files(d).items()}
            if r.rc != 0 or not os.path.exists(d + "/DONE"):
                vs.append(viol("failed", f"{m.name} in {sym}: exit status {r.rc}: {r.out[-200:]} {r.err[-200:]}", files))
                continue
            S = {}
            for par, name, stem, fermi, keys in sl:
                for f in glob.glob(d + "/" + stem.replace("%s", "*") + ".dat"):
                    al = re.match(re.escape(stem).replace("%s", r"(\w+)") + r"\.dat", os.path.basename(f))
                    a = dat(f)
                    if al and a is not None:
                        a = a.copy()
                        a[:, 1:] /= speccases.norm(par, sym, keys)
                        base_ = tuple(sorted({(x[0], y[0]) for x, y in keys}))
                        q = S.setdefault((al.group(1), base_, fermi), {})
                        q[frozenset(keys)] = a
            res.append((sym, nrgrun.read_td(d + "/td") or [], nrgrun.read_td(d + "/custom") or [], cases.spectrum(d, sym, m.scale), nrgrun.read_td(d + "/tdfdm") or [],
                        nrgrun.read_td(d + "/customfdm") or [], S, files))
            shutil.rmtree(d, ignore_errors=True)
        for k in range(1, len(res)):
            a, b = res[0], res[k]
            files = dict(a[7], **b[7])
            what = f"{m.name}, {a[0]} and {b[0]}"
            for n, (x, y) in dict(td=(a[1], b[1]), custom=(a[2], b[2]), tdfdm=(a[4], b[4]), customfdm=(a[5], b[5])).items():
                v, c = compare_tables(f"{what}: {n}", x, y, 2e-7, files)
                vs += v
                obs[f"{n} values"] = obs.get(f"{n} values", 0) + c
            if not a[1]:
                vs.append(viol("rows", f"{what}: empty td", files))
            for it, (x, y) in enumerate(zip(a[3], b[3])):
                if len(x) != len(y):
                    vs.append(viol("spectrum", f"{what}: step {it} has {len(x)} and {len(y)} states", files))
                    break
                obs["eigenvalues"] = obs.get("eigenvalues", 0) + len(x)
                tol = 2e-5 * (np.abs(x).max(initial=0) + m.scale(it) * 0.01)
                if not (np.abs(x - y) <= tol).all():
                    q = int(np.argmax(np.abs(x - y)))
                    vs.append(viol("spectrum", f"{what}: step {it}, state {q}: {x[q]!r} and {y[q]!r}", files))
                    break
            for key in sorted(set(a[6]) & set(b[6]), key=str):
                al, ops, fermi = key
                if not fermi and not al.endswith("mats"):
                    continue
                P, Q = a[6][key], b[6][key]
                allk = frozenset().union(*P, *Q)
                for part in ([allk] if (len(P) == 1 or len(Q) == 1) else list(P)):
                    pa = [P[s] for s in P if s <= part]
                    qa = [Q[s] for s in Q if s <= part]
                    if frozenset().union(*[s for s in P if s <= part]) != part or frozenset().union(*[s for s in Q if s <= part]) != part:
                        continue
                    X, Y = pa[0].copy(), qa[0].copy()
                    X[:, 1:] = sum(z[:, 1:] for z in pa) if len({z.shape for z in pa}) == 1 else np.nan
                    Y[:, 1:] = sum(z[:, 1:] for z in qa) if len({z.shape for z in qa}) == 1 else np.nan
                    vs += compare_dat(f"{what}: {al} {ops}", X, Y, 3e-6, files, skip0=al.endswith("mats") and not fermi)
                    obs["spectral functions"] = obs.get("spectral functions", 0) + 1
            obs[f"pair {a[0]}-{b[0]}"] = 1
        return case(f"gen/{i}", len(res) > 1, obs, dict(model=m.name, symmetries=[r[0] for r in res], keepenergy=kw["keepenergy"], Nmax=Nmax, substeps=sub, spectra=spectra), vs[:3],
                    inconclusive=None if len(res) > 1 or vs else "runs timed out")
    finally:
        shutil.rmtree(base, ignore_errors=True)


# ---------------------------------------------------------------- groups of regression tests
A, M, B = "c++sym_all/", "c++sym_more/", "c++sym_basic/"
KS = {s: A + n for s, n in dict(QS="test300_QS_ref", U1="test300_U1_ref", DBLSU2="test301_DBLSU2", DBLISOSZ="test302_DBLISOSZ", P="test303_P", PP="test304_PP", SPSU2LR="test305_SPSU2LR",
                                SPU1LR="test306_SPU1LR", SU2="test307_SU2", QSLR="test308_QSLR", QSZLR="test309_QSZLR").items()}
FREE = dict(Lambda="2.0", z="1.0", discretization="Z")
GROUPS = [  # (name, channels, members, coefficient tables that may be non-zero: o on-site energies, d pairing; parameters)
    ("kondo S=1", 2, list(KS.values()), "", {}),
    ("kondo S=1, on-site", 2, [KS[s] for s in ("QS", "QSLR", "QSZLR", "SPSU2LR", "SPU1LR", "SU2", "U1", "P", "PP")][:5], "o", {}),
    ("kondo S=1, on-site, U1", 2, [KS[s] for s in ("QS", "U1", "P", "PP")], "o", {}),
    ("kondo S=1, pairing", 2, [KS[s] for s in ("SPSU2LR", "SPU1LR", "P", "PP")], "od", {}),
    ("kondo, LR", 2, [A + "test310_QS_ref", A + "test311_ISOLR"], "", {}),
    ("zero", 2, [A + "test314_model=ZERO", A + "test314QSZ_model=ZERO", A + "test314DBLQSZ_model=ZERO", A + "test315_ISOLR"], "", {}),
    ("zero, parity", 2, [A + "test314_model=ZERO", A + "legacy_qslr", A + "legacy_qszlr", A + "legacy_isoszlr1", A + "legacy_isolr", A + "legacy_dblsu2_1", A + "legacy_dblisosz1"], "", FREE),
    ("zero, parity, on-site", 2, [A + "test314_model=ZERO", A + "test314QSZ_model=ZERO", A + "test314DBLQSZ_model=ZERO", A + "legacy_qslr", A + "legacy_qszlr"], "o", FREE),
    ("zero, pairing", 2, [A + "legacy_spsu1lr4", A + "legacy_spsu1lr4_ref=spsu1"], "od", {}),
    ("two-channel kondo", 2, [A + "legacy_dblisosz2", A + "legacy_dblsu2_2"], "", {}),
    ("one", 2, [A + "test400QS_model=ONE", A + "test400QSZ_model=ONE"], "o", {}),
    ("one, 2 channels", 2, [A + "test401QS_model=ONE", A + "test401QSZ_model=ONE", A + "test401DBLQSZ_model=ONE"], "o", {}),
    ("SIAM", 1, [M + "test503_QS_ref", M + "test504_QSZ_ref", M + "test500_ISO", M + "test501_ISOSZ", M + "test502_SPSU2", M + "test502_SPU1"], "", {}),
    ("SIAM, on-site", 1, [M + "test503_QS_ref", M + "test504_QSZ_ref", M + "test502_SPSU2", M + "test502_SPU1"], "o", {}),
    ("SIAM, pairing", 1, [M + "test502_SPSU2", M + "test502_SPU1"], "od", {}),
]


def retable(text, seed, free, ck_, Nmax, fixed):
    """the data file with new coefficient tables; equal tables stay equal"""
    head, tail = re.split(r"^z\s*$", text, maxsplit=1, flags=re.M)
    nch = int(re.search(r"^\s*(\d+)\s+\d+\s+\d+\s*$", head, re.M).group(1))
    sect = {}
    cur = "z"
    for w in tail.split():
        if w.isalpha():
            cur = w
        else:
            sect.setdefault(cur, []).append(w)
    sect.pop("T", None)         # the star tables; the coefficients are given
    res = ""
    first = 0.55 if fixed else float(sect["z"][1])
    for name, w in sect.items():
        k, out, b = 0, [], 0
        while k < len(w):
            n = int(w[k])
            t = float(w[k + 1])
            if fixed and name == "z":
                t = 0.55 if b // nch == 0 else 0.0
            k += 2 + n
            kind = (name, b // nch)
            b += 1
            rng = ck_.rng("table", seed, f"{t:.9e}" if t else str(kind))
            s = [(t or first) * rng.uniform(0.5, 1.4)]
            while len(s) < Nmax + 1:
                s.append(s[-1] * 0.75 * rng.uniform(0.6, 1.4))
            if abs(t) < 1e-25:
                s = [x * rng.uniform(-0.6, 0.6) if ("o" in free and kind == ("z", 1)) or ("d" in free and kind == ("Z", 0)) else 0.0 for x in s]
            out.append(f"{Nmax}\n" + "\n".join(repr(float(x)) for x in s))
        res += name + "\n" + "\n".join(out) + "\n"
    head = re.sub(r"^(\s*%d\s+)\d+(\s+\d+\s*)$" % nch, rf"\g<1>{Nmax}\g<2>", head, count=1, flags=re.M)
    return head + res


def annotated(p):
    """energy levels with total degeneracy (energies closer than 1e-6 relative to the largest are merged)"""
    its, cur = [], None
    for l in open(p):
        m = re.match(r"\s*(\S+) .*\[(\d+)\]\s*$", l)
        if m:
            if cur is None:
                cur = []
                its.append(cur)
            cur.append((float(m.group(1)), int(m.group(2))))
        elif not l.strip():
            cur = None
    return its


def levels(it, cut):
    out = []
    for e, g in it:
        if e > cut:
            break
        if out and abs(e - out[-1][0]) < 3e-6 * (1 + cut):
            out[-1][1] += g
        else:
            out.append([e, g])
    return out


def group(a):
    i, gname, ncha, members, free, fixed = a
    rng = ck.rng("group", i)
    base = common.scratch(ck.tmp, "r", i)
    Nmax = rng.choice([1, 2, 2]) if ncha == 2 else rng.choice([3, 4, 6])
    p = dict(Nmax=Nmax, keep=100000, keepenergy=repr(round(rng.uniform(1.0, 2.0) if ncha == 2 else rng.uniform(2.2, 3.5), 3)), keepmin=0, safeguard="1e-4", safeguardmax=10000,
             betabar=repr(rng.choice([0.1, 0.4, 1.0, 2.0])), prec_td=15, prec_custom=15, width_td=25, width_custom=25, dumpannotated=1000000, dumpprecision=9, dumpgroups="true",
             strategy=rng.choice(["all", "kept"]), T=repr(round(10 ** rng.uniform(-2, 0), 4)))
    if rng.random() < 0.5:
        p.update(diag=rng.choice(["dsyev", "dsyevd", "dsyevr"]))
    p.update(fixed)
    slow = {KS["P"], KS["PP"], KS["U1"]}
    if not ck.thorough and Nmax == 2 and slow & set(members):      # the types without spin symmetry are slow
        if len(set(members) - slow) > 1:
            members = [x for x in members if x not in slow]
        else:
            Nmax = p["Nmax"] = 1
    try:
        res, vs, obs = [], [], {}
        for k, mem in enumerate(members):
            src = build.REPO + "/test/" + mem
            if not os.path.exists(src + "/data"):
                continue
            d = f"{base}/{k}"
            os.makedirs(d)
            t = open(src + "/param").read()
            t = re.sub(rf"^\s*({'|'.join(p)}|tri)\s*=.*$", "", t, flags=re.M)
            t = re.sub(r"^\[param\]\s*$", "[param]\n" + "".join(f"{k_}={v}\n" for k_, v in p.items()), t, count=1, flags=re.M)
            open(d + "/param", "w").write(t)
            open(d + "/data", "w").write(retable(open(src + "/data").read(), i, free, ck, Nmax, fixed))
            sym = re.search(r"^\s*symtype\s*=\s*(\w+)", t, re.M).group(1)
            r = nrgrun.run([NRG], d, timeout=200)
            files = {f"{n}.{sym}": v for n, v in cases.case_files(d).items()}
            if r.timeout:
                obs["timed out"] = obs.get("timed out", 0) + 1
                continue
            if r.rc != 0 or not os.path.exists(d + "/DONE"):
                vs.append(viol("failed", f"{mem}: exit status {r.rc}: {r.out[-200:]} {r.err[-300:]}", files))
                continue
            S = {}
            for f in glob.glob(d + "/*_dens_*.dat"):
                x = dat(f)
                n = os.path.basename(f)[:-4]
                if x is not None:
                    S.setdefault(re.sub(r"-(u|d)$", "", n), []).append(x)
            res.append((sym, nrgrun.read_td(d + "/td") or [], nrgrun.read_td(d + "/custom") or [], annotated(d + "/annotated.dat") if os.path.exists(d + "/annotated.dat") else [],
                        nrgrun.read_td(d + "/tdfdm") or [], nrgrun.read_td(d + "/customfdm") or [], S, files))
            if os.environ.get("VERIF_PROF"):
                print(gname, sym, p["keepenergy"], Nmax, round(r.wall, 1), flush=True)
            shutil.rmtree(d, ignore_errors=True)
        for k in range(1, len(res)):
            a_, b = res[0], res[k]
            files = dict(a_[7], **b[7])
            what = f"{gname}: {a_[0]} and {b[0]}"
            for n, (x, y) in dict(td=(a_[1], b[1]), custom=(a_[2], b[2]), tdfdm=(a_[4], b[4]), customfdm=(a_[5], b[5])).items():
                if n in ("tdfdm", "customfdm") and (not x or not y):
                    continue
                v, c = compare_tables(f"{what}: {n}", x, y, 2e-7, files)
                vs += v
                obs[f"{n} values"] = obs.get(f"{n} values", 0) + c
            if a_[3] and b[3]:
                if len(a_[3]) != len(b[3]):
                    vs.append(viol("annotated", f"{what}: {len(a_[3])} and {len(b[3])} steps in annotated.dat", files))
                for it, (x, y) in enumerate(zip(a_[3], b[3])):
                    cut = max((e for e, _ in x), default=0) * (0.999 if it else 1.1)
                    X, Y = levels(x, cut), levels(y, cut)
                    obs["levels"] = obs.get("levels", 0) + len(X)
                    if len(X) != len(Y) or any(abs(s[0] - t_[0]) > 1e-6 * (1 + cut) or s[1] != t_[1] for s, t_ in zip(X, Y)):
                        bad = next(((s, t_) for s, t_ in zip(X, Y) if abs(s[0] - t_[0]) > 1e-6 * (1 + cut) or s[1] != t_[1]), (len(X), len(Y)))
                        vs.append(viol("levels", f"{what}: step {it}: energy and degeneracy {bad[0]} and {bad[1]}", files))
                        break
            for n in sorted(set(a_[6]) & set(b[6])):
                if not re.match(r"spec_", n):
                    continue
                X, Y = a_[6][n], b[6][n]
                P, Q = X[0].copy(), Y[0].copy()
                if len({x.shape for x in X + Y}) != 1:
                    vs.append(viol("shape", f"{what}: {n}: tables {[x.shape for x in X + Y]}", files))
                    continue
                P[:, 1:] = sum(x[:, 1:] for x in X) / len(X)
                Q[:, 1:] = sum(x[:, 1:] for x in Y) / len(Y)
                s, t_ = np.abs(P[:, 1:]).sum(), np.abs(Q[:, 1:]).sum()
                Q[:, 1:] *= min((0.5, 1, 2), key=lambda f: abs(math.log((f * t_ + 1e-300) / (s + 1e-300))))   # conventions differ by a factor of 2
                vs += compare_dat(f"{what}: {n}", P, Q, 3e-6, files)
                obs["spectral functions"] = obs.get("spectral functions", 0) + 1
            obs[f"pair {a_[0]}-{b[0]}"] = 1
        return case(f"group/{gname}/{i}", len(res) > 1, obs, dict(group=gname, symmetries=[r[0] for r in res], **p), vs[:3], inconclusive=None if len(res) > 1 or vs else "runs timed out")
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    global NRG
    NRG = build.engine("main")
    if os.environ.get("VERIF_CASE"):
        print(eval(os.environ["VERIF_CASE"]))
        return
    ck.run(generated, range(ck.n(38, 800)))
    ck.run(group, [(i, *GROUPS[i % len(GROUPS)]) for i in range(ck.n(30, 300))])
    ck.finish()


common.main(main)
