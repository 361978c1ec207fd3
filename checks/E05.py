"""E05: the binned spectral functions of every algorithm (FT, DMNRG, CFS, FDM, their
greater/lesser parts and their Matsubara variants) equal the Lehmann representation
over the states of the run. Monitor: the raw .bin peaks and Matsubara .dat files
written by real engine runs, against peaks computed by an independent NRG."""
import os, sys, shutil, math
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common, build, cases, phys, nrgrun, spec
import numpy as np
from vlib.speccases import SHAPES, spec_list, norm, find, read_hist, setup
from vlib.common import case, viol

ck = None
NRG = None
def run(i):
    d = common.scratch(ck.tmp, "c", i)
    try:
        try:
            rng, m, sym, Nmax, nst, ke, R, target = setup(ck, i)
        except cases.NoGap:
            return case(f"nogap/{i}", False)
        T = m.scale(nst) * 10 ** rng.uniform(-0.3, 1.2)
        complete = rng.random() < 0.8
        last = R.steps[-1]
        if not complete:
            # the last step is truncated by the same rule unless a complete basis is requested
            x = (last["E"] - last["E"][0]) / m.scale(nst)
            c = int((x <= ke).sum())
            n = min(c + 1, len(x))
            while n < len(x) and x[n] - x[n - 1] < 1e-5:
                n += 1
            if target and (n < len(x) and x[n] - x[n - 1] < 1e-4 or c < len(x) and min(abs(x[c] - ke), abs(x[c - 1] - ke)) < 1e-3):
                complete = True
            else:
                last["nlast"] = n
        nmats = rng.choice([1, 5, 12])
        bins = rng.choice([10, 33, 100, 300])
        opt = dict(goodE=rng.choice([0.5, 0.8, 1.3, 2.0]), NN1=rng.random() < .2, NN2even=rng.random() < .7, NN2avg=rng.random() < .2,
                   NNtanh=rng.choice([0.0, 0.0, 0.7, 2.0]))
        f = m.Lambda if (m.nch == 1 and not opt["NN1"]) else math.sqrt(m.Lambda)
        opt["f"] = f
        kw = {k: (str(v).lower() if isinstance(v, bool) else repr(v)) for k, v in opt.items() if k != "f"}
        kw.update(T=repr(T), keepenergy=repr(ke), keepmin=0, finite="true", dmnrg="true", finitemats="true", dmnrgmats="true", mats=nmats,
                  bins=bins, broaden="false", savebins="true", strategy=rng.choice(["all", "kept"]), logall="false", prec_xy=15)
        if complete:
            for k in ("fdm", "fdmgt", "fdmls", "fdmmats", "cfs", "cfsgt", "cfsls"):
                kw[k] = "true"
        emin, emax = m.scale(nst) / 100, m.scale(0) * 100
        if rng.random() < 0.25:
            emin, emax = m.scale(nst) * rng.uniform(0.02, 0.3), m.scale(0) * rng.uniform(5, 50)
            kw.update(emin=repr(emin), emax=repr(emax))
        if m.substeps:
            kw["substeps"] = "true"
        sl = spec_list(m, sym)
        if len(sl) > 4:
            sl = sorted(rng.sample(range(len(sl)), 4))
            sl = [spec_list(m, sym)[k] for k in sl]
        for p in ("specd", "specs", "spect"):
            n = [x[1] for x in sl if x[0] == p]
            if n:
                kw[p] = " ".join(n)
        cplx = rng.random() < 0.3
        ops = list(m.ops)
        p = cases.base_params(m, sym, **kw)
        p["ops"] = " ".join(ops)
        cases.write_case(d, m, sym, Nmax, p, cplx=ck.rng("cp", i) if cplx else None)
        key = f"{m.name}{'-sub' if m.substeps else ''}/{sym}/{'c' if cplx else 'r'}/{i}"
        sample = dict(model=m.name, sym=sym, Lambda=m.Lambda, z=m.z, Nmax=Nmax, T=T, keepenergy=ke, patching=opt, bins=bins, complete_basis=complete,
                      states=[(kept, len(st["E"])) for kept, st in ((st["nkeep"], st) for st in R.steps)])
        r = nrgrun.run([NRG], d, timeout=240)
        files = cases.case_files(d)
        files["stdout"] = r.out[-20000:]
        if r.timeout:
            return case(key, False, inconclusive="engine timed out", sample=sample)
        if r.rc != 0 or not os.path.exists(d + "/DONE"):
            return case(key, True, sample=sample, violations=[viol("run-failed", f"engine exit status {r.rc}: {r.out[-200:]} {r.err[-300:]}", files)])
        mesh = spec.Mesh(emin, emax, bins)
        if complete:
            R.fdm(T)
            rho_fdm = R.rho
        rho_cfs = spec.thermal_rho(R, T)
        V, seen = [], {}
        obs = dict(spectra=0, peaks=0, bins_compared=0, matsubara_points=0)
        wsum = 0.0

        def compare(algo, stem, wants, scale, tol=2e-7, alt=None, altkind=None):
            fn = find(d, stem, algo)
            if fn is None:
                V.append(viol("missing", f"{stem % algo}.bin was not written", files))
                return
            got, err = read_hist(fn + ".bin", mesh)
            if err:
                V.append(viol("mesh", f"{stem % algo}: {err}", files))
                return
            obs["spectra"] += 1
            obs["bins_compared"] += int(2 * len(mesh.e))

            def worst(w):
                a = np.concatenate([got[0][1:] - w[0][1:], got[1][1:] - w[1][1:], [got[0][0] + got[1][0] - w[0][0] - w[1][0]]])
                k = int(np.argmax(np.abs(a))) if np.all(np.isfinite(a)) else 0
                return (abs(a[k]) if np.all(np.isfinite(a)) else math.inf), k
            x, k = worst(wants[0])
            if any(worst(w)[0] <= tol * (scale + 1e-3) for w in wants):
                return
            want = wants[0]
            e = mesh.e[(k % (len(mesh.e) - 1)) + 1] * (1 if k < len(mesh.e) - 1 else -1)
            t = f"{stem % algo}: sum of weights {got[0].sum() + got[1].sum()!r}, Lehmann representation {want[0].sum() + want[1].sum()!r}; largest difference {x:.3e} at omega={e:.4g}"
            if alt and any(worst(w)[0] <= tol * (scale + 1e-3) for w in alt):
                V.append(viol(altkind, t, files))
            else:
                V.append(viol("spectrum", t, files))

        def compare_mats(algo, stem, wants, scale):
            want = wants[0]
            fn = find(d, stem, algo)
            if fn is None:
                V.append(viol("missing", f"{stem % algo}.dat was not written", files))
                return
            a = np.loadtxt(fn + ".dat", ndmin=2)
            if a.shape != (len(want), 3):
                V.append(viol("mats-rows", f"{stem % algo}: {a.shape} table for {len(want)} Matsubara points", files))
                return
            obs["matsubara_points"] += len(want)
            fr = np.array([spec.mats_freq(n, fermion, T) for n in range(len(want))])
            if np.max(np.abs(a[:, 0] - fr)) > 1e-9 * max(fr[-1], T):
                V.append(viol("mats-freq", f"{stem % algo}: frequencies {a[:3, 0]} instead of {fr[:3]}", files))
            for want in wants:
                dd = np.abs(a[:, 1] + 1j * a[:, 2] - want)
                if np.all(dd <= 1e-6 * (np.abs(want) + scale / T * 1e-3) + 1e-12):
                    break
            else:
                k = int(np.argmax(dd))
                V.append(viol("mats", f"{stem % algo} at n={k}: engine {a[k, 1] + 1j * a[k, 2]}, transform of the Lehmann representation {want[k]}", files))

        for param, name, stem, fermion, keys in sl:
            sign = 1 if fermion else -1
            nf = norm(param, sym, keys)

            def over(fn):
                """sum of peak lists over components"""
                om, w = [], []
                for ka, kb in keys:
                    A = lambda st, ka=ka: st["ops"][ka].T
                    B = lambda st, kb=kb: st["ops"][kb]
                    o, x = fn(A, B)
                    om.append(np.ravel(o))
                    w.append(nf * np.ravel(x))
                return np.concatenate(om), np.concatenate(w)
            sc = 1.0
            # FT
            def ftp(it):
                return over(lambda A, B: spec.ft_pairs(R, it, A, B, sign, T)[:2])
            def dmp(it, conv):
                def g(A, B):
                    o, a, b = spec.dm_pairs(R, it, rho_cfs, A, B, sign, conv)
                    return o, a + b
                return over(g)
            o, w = ftp(nst)
            sc = np.abs(w).sum() + 1e-12
            obs["peaks"] += len(o)
            same = all(ka == kb for ka, kb in keys)
            convs = ("AB",) if same else ("AB", "AA", "BA", "BB")
            compare("FT", stem, [spec.patched(m, R, mesh, ftp, opt)], sc)
            compare("DMNRG", stem, [spec.patched(m, R, mesh, lambda it: dmp(it, c), opt, prefilter=True) for c in convs], sc)
            tot = np.zeros(nmats, complex)
            totd = {c: np.zeros(nmats, complex) for c in convs}
            for it in range(0, nst + 1):
                def z0(A, B):
                    o, w, E, mm, Z = spec.ft_pairs(R, it, A, B, sign, T)
                    return o, -mm * np.exp(-E[None, :] / T) / (Z * T)
                o, w = ftp(it)
                tot += spec.mats(o, w, over(z0)[1], fermion, T, nmats)
                for c in convs if it else ():
                    def z1(A, B):
                        o, a, b = spec.dm_pairs(R, it, rho_cfs, A, B, sign, c)
                        return o, -a / T
                    o, w = dmp(it, c)
                    totd[c] += spec.mats(o, w, over(z1)[1], fermion, T, nmats)
            compare_mats("FTmats", stem, [tot], sc)
            compare_mats("DMNRGmats", stem, list(totd.values()), sc)
            if not complete:
                continue
            # complete-basis algorithms
            for fam, rho in (("CFS", rho_cfs), ("FDM", rho_fdm)):
                cs = ("AA",) if same else (("AB", "AA", "BA", "BB") if fam == "CFS" else ("AA", "BB"))
                good = {"": [], "gt": [], "ls": []}
                alts = {"": [], "gt": [], "ls": []}
                fm = []
                scl = {}
                for c in cs:
                    pts = {"": ([], []), "gt": ([], []), "ls": ([], [])}
                    alt = {"": ([], []), "gt": ([], []), "ls": ([], [])}
                    fdmm = np.zeros(nmats, complex)
                    for ka, kb in keys:
                        A = lambda st: st["ops"][ka].T
                        B = lambda st: st["ops"][kb]
                        sh = spec.shells(R, rho, A, B, sign, c)
                        for n, (om, g, l) in enumerate(sh):
                            g, l = nf * g, nf * l
                            fin = n == len(sh) - 1
                            for dct, gg, ll in ((pts, g, l), (alt, g if fin else l / sign, l if fin else sign * g)):
                                for k, ww in (("", gg + ll), ("gt", gg), ("ls", ll)):
                                    dct[k][0].append(om)
                                    dct[k][1].append(ww)
                            if fam == "FDM":
                                fdmm += spec.mats(om, g + l, -g / T, fermion, T, nmats)
                    fm.append(fdmm)
                    for k in ("", "gt", "ls"):
                        om, ww = np.concatenate(pts[k][0]), np.concatenate(pts[k][1])
                        obs["peaks"] += len(om) if c == cs[0] else 0
                        good[k].append(mesh.hist(om, ww))
                        scl[k] = np.abs(ww).sum()
                        if fam == "CFS":
                            alts[k].append(mesh.hist(np.concatenate(alt[k][0]), np.concatenate(alt[k][1])))
                        if k == "" and fam == "FDM" and name == "A_d-A_d" and abs(ww.sum() - 1) > 1e-6:
                            raise RuntimeError(f"the reference violates the sum rule: {ww.sum()}")
                for k in ("", "gt", "ls"):
                    compare(fam + k, stem, good[k], scl[k], alt=alts[k], altkind="cfs-gt-ls-swap")
                if fam == "FDM":
                    compare_mats("FDMmats", stem, fm, scl[""])
        # one report per kind and algorithm family
        uniq = {}
        for v in V:
            uniq.setdefault((v["kind"], "gt" if "_CFSgt" in v["what"] else "ls" if "_CFSls" in v["what"] else ""), v)
        return case(key, True, obs, sample, list(uniq.values()))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global ck, NRG
    ck = common.Check("E05", "exploration",
                      "random models, truncations, temperatures, patching options and symmetry types; every spectrum of every algorithm is compared bin by bin; "
                      "non-trivial = the run completed and its spectra were compared with the Lehmann sums",
                      ["LAPACK (numpy) is correct", "cut-offs are placed in gaps of the spectrum, so that both NRGs keep the same states",
                       "bins below the lowest representative energy merge positive and negative frequencies (numerical zero has no sign)"])
    NRG = build.engine("main")
    only = os.environ.get("VERIF_CASE")
    ck.run(run, [int(only)] if only else range(ck.n(70, 1000)))
    ck.finish()


common.main(main)
