"""E06: broadened spectra follow from the raw peaks with the documented kernels, and
the temperature curves (conductance and transport integrals, susceptibility) follow
from the Lehmann sums of each shell. Monitor: .dat against .bin of the same real run,
the weight report on stdout against .bin, the gt/i1t/i2t/chit curves and the binned
weight itself against the independent NRG."""
import os, sys, shutil, math, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common, build, cases, phys, nrgrun, spec
import numpy as np
np.seterr(all="ignore")
from vlib.speccases import SHAPES, spec_list, norm, find, setup
from vlib.common import case, viol

ck = None
NRG = None


def fermi(x):
    return np.where(x > 0, 1 / (1 + np.exp(-np.abs(x))), np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x))))


def parse_report(out):
    """[(name, algo, {quantity: value})] of the blocks the engine prints after each spectrum"""
    res = []
    for b in re.split(r"^(?=Spectrum: \S+ \S+ -> )", out, flags=re.M)[1:]:
        h = re.match(r"Spectrum: (\S+) (\S+) -> (.*)", b)
        q = {}
        for k, v in re.findall(r"\b(pos|neg|sum|mu[1-4]|f|b)= ?(\(?[-+0-9.eginfaINF,]+\)?)", b[h.end():b.find("\n", b.find("\nf=") + 1)]):
            try:
                q[k] = float(v)
            except ValueError:
                pass
        res.append((h.group(1), h.group(2), h.group(3).split(), q))
    return res


def run(i):
    d = common.scratch(ck.tmp, "c", i)
    try:
        try:
            rng, m, sym, Nmax, nst, ke, R, target = setup(ck, i)
        except cases.NoGap:
            return case(f"nogap/{i}", False)
        T = m.scale(nst) * 10 ** rng.uniform(-0.3, 1.5)
        bins = rng.choice([7, 20, 60, 200])
        alpha = rng.choice([0.2, 0.35, 0.6, 1.0])
        kw = dict(T=repr(T), keepenergy=repr(ke), keepmin=0, finite="true", dmnrg="true", fdm="true", bins=bins, broaden="true", savebins="true",
                  alpha=repr(alpha), logall="false", prec_xy=16, strategy=rng.choice(["all", "kept"]), goodE=rng.choice(["0.7", "1.5"]))
        w0r = 1.0
        if rng.random() < 0.5:
            w0r = rng.uniform(0.05, 3.0)
            kw["omega0_ratio"] = repr(w0r)
        w0 = w0r * T
        if rng.random() < 0.3:
            w0 = T * rng.uniform(0.1, 5)
            kw["omega0"] = repr(w0)
        bmax = rng.choice([2.0, m.scale(0) * rng.uniform(0.5, 4)])
        ratio = rng.choice([1.05, 1.2, 1.5, 2.0])
        kw.update(broaden_max=repr(bmax), broaden_ratio=repr(ratio))
        last = m.scale(nst)
        bmin = last * 3.0
        if rng.random() < 0.4:
            x = rng.uniform(0.5, 4)
            bmin = last * x
            kw["broaden_min_ratio"] = repr(x)
        if rng.random() < 0.4:
            bmin = bmax * 10 ** rng.uniform(-4, -1)
            kw["broaden_min"] = repr(bmin)
        if bmax < 3 * bmin:
            bmax = 10 * bmin
            kw["broaden_max"] = repr(bmax)
        trim = 1e-16
        if rng.random() < 0.3:
            trim = 10 ** rng.uniform(-10, -3)
            kw["discard_trim"] = repr(trim)
        acc = rng.random() < 0.3
        if acc:
            a = m.scale(nst) * rng.uniform(0.5, 20)
            kw["accumulation"] = repr(a)
            if rng.random() < .7:
                kw["linstep"] = repr(a / rng.uniform(3, 30))
        gtp, chitp = 0.7, 1.0
        if rng.random() < 0.5:
            gtp, chitp = rng.uniform(0.3, 1.5), rng.uniform(0.3, 1.5)
            kw.update(gtp=repr(gtp), chitp=repr(chitp))
        if m.substeps:
            kw["substeps"] = "true"
        sl = spec_list(m, sym)
        dl = [x for x in sl if x[0] == "specd"]
        bl = [x for x in sl if x[0] == "specs"]
        use = rng.sample(dl, min(2, len(dl))) + [rng.choice(bl)] + [x for x in sl if x[0] == "spect"]
        for p in ("specd", "specs", "spect"):
            n = [x[1] for x in use if x[0] == p]
            if n:
                kw[p] = " ".join(n)
        cur = rng.sample(dl, min(2, len(dl)))
        ccur = rng.sample(bl, min(2, len(bl)))
        for p in ("specgt", "speci1t", "speci2t"):
            kw[p] = " ".join(x[1] for x in cur)
        kw["specchit"] = " ".join(x[1] for x in ccur)
        cplx = rng.random() < 0.3
        reim = rng.random() < 0.3
        if reim:
            kw["reim"] = "true"
        p = cases.base_params(m, sym, **kw)
        p["ops"] = " ".join(m.ops)
        cases.write_case(d, m, sym, Nmax, p, cplx=ck.rng("cp", i) if cplx else None)
        key = f"{m.name}{'-sub' if m.substeps else ''}/{sym}/{'c' if cplx else 'r'}{'-acc' if acc else ''}{'-reim' if reim else ''}/{i}"
        sample = dict(model=m.name, sym=sym, Lambda=m.Lambda, Nmax=Nmax, T=T, alpha=alpha, omega0=w0, bins=bins, mesh=(bmin, bmax, ratio), discard_trim=trim)
        r = nrgrun.run([NRG], d, timeout=240)
        files = cases.case_files(d)
        files["stdout"] = r.out[-20000:]
        if r.timeout:
            return case(key, False, inconclusive="engine timed out", sample=sample)
        if r.rc != 0 or not os.path.exists(d + "/DONE"):
            return case(key, True, sample=sample, violations=[viol("run-failed", f"engine exit status {r.rc}: {r.out[-200:]} {r.err[-300:]}", files)])
        V = []
        obs = dict(broadened_spectra=0, mesh_points=0, reports=0, curves=0, curve_points=0, bins_checked=0)
        cols = 3 if reim else 2
        mesh = []
        e = bmax
        while e > bmin:
            mesh.append(e)
            e /= ratio
        want_e = np.array([-x for x in mesh] + [x for x in reversed(mesh)])
        rep = {(a, b, q[0] if q else ""): c for a, b, q, c in parse_report(r.out)}
        nrep = {}
        for a, b, q, c in parse_report(r.out):
            for f in q:
                nrep[f] = (c, a, b)
        raw = {}
        for param, name, stem, fermion, keys in use:
            for algo in ("FT", "DMNRG", "FDM"):
                f = os.path.join(d, stem % algo)
                if not os.path.exists(f + ".bin") or not os.path.exists(f + ".dat"):
                    V.append(viol("missing", f"{stem % algo} .bin or .dat was not written", files))
                    continue
                b = nrgrun.read_bin(f + ".bin", cols)
                raw[(name, algo)] = b
                fl = dict(files)
                fl["bin.csv"] = "\n".join(" ".join(repr(float(x)) for x in q) for q in b[:20000])
                fl["dat"] = common.slurp(f + ".dat")
                try:
                    dat = np.loadtxt(f + ".dat", ndmin=2)
                except ValueError:
                    V.append(viol("dat-format", f"{stem % algo}.dat is not a numeric table", fl))
                    continue
                if dat.shape != (len(want_e), cols) or np.max(np.abs(dat[:, 0] / want_e - 1)) > 1e-10:
                    V.append(viol("mesh", f"{stem % algo}.dat: {dat.shape} table, expected {len(want_e)} ascending mesh points between {want_e[0]:.6g} and {want_e[-1]:.6g}", fl))
                    continue
                if not np.all(b[: (b[:, 0] > 0).sum(), 0] > 0) or np.any(np.diff(np.abs(b[b[:, 0] > 0, 0])) < 0) or np.any(np.diff(np.abs(b[b[:, 0] < 0, 0])) < 0):
                    V.append(viol("bin-order", f"{stem % algo}.bin is not sorted into ascending |omega|, positive then negative", fl))
                K = spec.br_engine(want_e[:, None], b[None, :, 0], alpha, w0)
                for c in range(1, cols):
                    ref = K @ b[:, c]
                    lim = 1e-8 * (K @ np.abs(b[:, 1]) + np.abs(ref)) + 1e-14
                    if c == 2:
                        # imaginary parts below the documented clipping tolerance are written as zero
                        lim = lim + 1e-9 * np.abs(dat[:, 1]) + 1e-9 * (K @ np.abs(b[:, 1:]).sum(axis=1))
                    x = np.abs(dat[:, c] - ref)
                    if not np.all(x <= lim):
                        k = int(np.argmax(np.where(np.isfinite(x), x - lim, np.inf)))
                        V.append(viol("broadening", f"{stem % algo}.dat column {c + 1} at omega={want_e[k]:.6g}: {dat[k, c]!r}, convolution of the {len(b)} peaks {ref[k]!r}", fl))
                        break
                obs["broadened_spectra"] += 1
                obs["mesh_points"] += len(want_e)
                # the weight report
                q = None
                for fn, (c, a_, b_) in nrep.items():
                    if fn == stem % algo + ".dat":
                        q = c
                if q:
                    om, w = b[:, 0], b[:, 1]
                    sc = np.abs(w).sum() + 1e-9
                    exp = dict(pos=w[om > 0].sum(), neg=w[om < 0].sum(), sum=w.sum())
                    for n in range(1, 5):
                        exp[f"mu{n}"] = (w * om ** n).sum()
                    exp["f"] = (w * fermi(om / T)).sum()
                    with np.errstate(all="ignore"):
                        bw = np.where(om > 0, -1 / np.expm1(-om / T), np.exp(-np.abs(om) / T) / np.expm1(-np.abs(om) / T) * 1.0)
                        exp["b"] = (w * bw).sum()
                    for kk, vv in q.items():
                        t = max(np.abs(w * (om ** int(kk[2]) if kk[:2] == "mu" else bw if kk == "b" else 1.0)).sum(), 1e-12)
                        if np.isfinite(exp[kk]) and not abs(vv - exp[kk]) <= 1e-4 * abs(exp[kk]) + 1e-8 * t:
                            V.append(viol("report", f"{stem % algo}: reported {kk}={vv!r}, the peaks in the .bin file give {exp[kk]!r}", fl))
                    obs["reports"] += 1
        # the written weight: compare the complete-basis spectrum with the reference peaks
        R.fdm(T)
        emin, emax = m.scale(nst) / 100, m.scale(0) * 100
        ms = spec.Mesh(emin, emax, bins)
        for param, name, stem, fermion, keys in use:
            if (name, "FDM") not in raw:
                continue
            sign = 1 if fermion else -1
            nf = norm(param, sym, keys)
            om, w = [], []
            for ka, kb in keys:
                for o, g, l in spec.shells(R, R.rho, lambda st: st["ops"][ka].T, lambda st: st["ops"][kb], sign):
                    om.append(o)
                    w.append(nf * (g + l))
            om, w = np.concatenate(om), np.concatenate(w)
            b = raw[(name, "FDM")]
            sc = np.abs(w).sum() + 1e-3
            if acc:
                # no peak may be lost or moved beyond the neighbouring representative points
                if abs(b[:, 1].sum() - w.sum()) > 1e-6 * sc + (trim * 100 * len(b) if trim > 1e-15 else 0):
                    V.append(viol("acc-weight", f"{stem % 'FDM'}: accumulation mesh holds weight {b[:, 1].sum()!r} of {w.sum()!r}", files))
                # a peak is shared by its two neighbours in proportion to the distance: the first moment is conserved
                for sg in (1, -1):
                    s1, s2 = om * sg > 1e-9, b[:, 0] * sg > 0
                    a1, a2 = (w * om)[s1].sum(), (b[:, 1] * b[:, 0])[s2].sum()
                    lim = 1e-6 * (np.abs(w * om)[s1].sum() + 1e-3) + (trim * 100 * len(b) if trim > 1e-15 else 0)
                    obs["bins_checked"] += int(s2.sum())
                    if not abs(a1 - a2) <= lim:
                        V.append(viol("acc-moment", f"{stem % 'FDM'}: first moment of the {'positive' if sg > 0 else 'negative'}-frequency weight {a2!r} on the accumulation mesh, {a1!r} of the peaks", files))
            else:
                pos, neg = ms.hist(om, w)
                gp, gn = np.zeros_like(pos), np.zeros_like(neg)
                hit = np.zeros((2, len(pos)), bool)
                for e, x in b[:, :2]:
                    k = int(round((math.log10(abs(e)) - ms.l0) * ms.b))
                    if 0 <= k < len(pos) and abs(abs(e) / ms.e[k] - 1) < 1e-9:
                        (gp if e > 0 else gn)[k] += x
                        hit[0 if e > 0 else 1, k] = True
                    else:
                        V.append(viol("bin-energy", f"{stem % 'FDM'}: energy {e!r} is not a point of the binning mesh", files))
                        break
                wid = np.append(np.diff(ms.e), np.inf)
                obs["bins_checked"] += 2 * len(pos)
                tol = 2e-7 * sc
                z = abs(pos[0] + neg[0] - gp[0] - gn[0])
                for h, gg, hh, sg in ((pos, gp, hit[0], 1), (neg, gn, hit[1], -1)):
                    bad = np.abs(h - gg) > tol + np.where(hh, 0, trim * wid)
                    bad[0] = z > tol + 2 * trim * wid[0]
                    if bad.any():
                        k = int(np.argmax(bad))
                        V.append(viol("weight", f"{stem % 'FDM'}.bin at omega={sg * ms.e[k]:.5g}: weight {gg[k]!r}{'' if hh[k] else ' (bin not written)'}, Lehmann sum {h[k]!r}", files))
                        break
        # temperature curves
        for lst, files_ in ((cur, (("gt_GT", 0), ("i1t_I1T", 1), ("i2t_I2T", 2))), (ccur, (("chit_CHIT", None),))):
            for param, name, stem, fermion, keys in lst:
                for pre, n in files_:
                    fn = os.path.join(d, f"{pre}_dens_{name}.dat")
                    if not os.path.exists(fn):
                        V.append(viol("missing", f"{os.path.basename(fn)} was not written", files))
                        continue
                    t = np.loadtxt(fn, ndmin=2)
                    tp = gtp if n is not None else chitp
                    Ts = np.array([tp * m.scale(it) for it in range(nst + 1)])
                    ref = np.zeros(nst + 1)
                    mag = np.zeros(nst + 1)
                    for it in range(nst + 1):
                        st = R.steps[it]
                        k = len(st["E"]) if it == nst else st["nkeep"]
                        E = st["E"][:k] - st["E"][0]
                        be = 1 / Ts[it]
                        Z = np.exp(-be * E).sum()
                        with np.errstate(over="ignore"):
                            if n is not None:
                                W = be / (np.exp(be * E)[None, :] + np.exp(be * E)[:, None]) * (E[None, :] - E[:, None]) ** n / Z
                            else:
                                x = be * (E[None, :] - E[:, None])
                                W = np.where(np.abs(x) > 1e-8, (np.exp(-be * E)[:, None] - np.exp(-be * E)[None, :]) / np.where(np.abs(x) > 1e-8, x, 1.0), np.exp(-be * E)[:, None]) / Z
                        for ka, kb in keys:
                            mm = st["ops"][ka].T[:k, :k] * st["ops"][kb][:k, :k].T
                            ref[it] += norm("specd", sym, keys) * (mm * W).sum()
                            mag[it] += norm("specd", sym, keys) * np.abs(mm * W).sum()
                    o = np.argsort(Ts)
                    if t.shape != (nst + 1, cols) or np.max(np.abs(t[:, 0] / Ts[o] - 1)) > 1e-9:
                        V.append(viol("curve-rows", f"{os.path.basename(fn)}: table {t.shape} with temperatures {t[:3, 0]}, expected {nst + 1} rows from {Ts[o][0]:.6g}", files))
                        continue
                    obs["curves"] += 1
                    obs["curve_points"] += nst + 1
                    x = np.abs(t[:, 1] - ref[o])
                    lim = 1e-6 * np.abs(ref[o]) + 1e-7 * mag[o] + 1e-12
                    if not np.all(x <= lim):
                        k = int(np.argmax(np.where(np.isfinite(x), x - lim, np.inf)))
                        V.append(viol("curve", f"{os.path.basename(fn)} at T={t[k, 0]:.6g}: {t[k, 1]!r}, Lehmann sum of the shell {ref[o][k]!r}", files))
        uniq = {}
        for v in V:
            uniq.setdefault(v["kind"], v)
        return case(key, True, obs, sample, list(uniq.values()))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global ck, NRG
    ck = common.Check("E06", "exploration",
                      "random models, symmetry types, broadening, mesh, trimming and accumulation options; every .dat is recomputed from its .bin, "
                      "every weight report from the peaks, every temperature curve from the states of an independent NRG; non-trivial = the run "
                      "completed and its spectra and curves were compared",
                      ["LAPACK (numpy) is correct", "cut-offs are placed in gaps of the spectrum, so that both NRGs keep the same states"])
    NRG = build.engine("main")
    only = os.environ.get("VERIF_CASE")
    ck.run(run, [int(only)] if only else range(ck.n(70, 1000)))
    ck.finish()


common.main(main)
