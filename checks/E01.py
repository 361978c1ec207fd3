"""E01: without truncation the engine's NRG is exact diagonalization.
Monitor: td, custom and energies.nrg of real engine runs on randomly generated
models, against dense exact diagonalization in Fock space (vlib/phys.py)."""
import os, sys, json, shutil, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common, build, cases, phys, nrgrun
import numpy as np
from vlib.common import case, viol

ck = None
NRG = None

SHAPES = [  # nimp, nch, Nmax, options
    (1, 1, 3, {}), (1, 1, 3, dict(field=True)), (1, 1, 3, dict(field=True, pol=True)), (1, 1, 3, dict(sc=True)),
    (1, 1, 3, dict(sc=True, field=True)), (1, 1, 3, dict(bx=True, field=True)), (2, 1, 2, {}), (2, 1, 2, dict(field=True)),
    (1, 2, 1, {}), (1, 2, 1, dict(field=True)), (1, 2, 1, dict(field=True, pol=True)), (1, 2, 1, dict(sc=True)), (1, 2, 1, dict(bx=True)),
    (1, 1, 3, dict(ph=True)), (1, 2, 1, dict(sc=True, field=True)), (2, 1, 2, dict(sc=True)), (1, 1, 2, dict(sc=True, field=True, pol=True)),
    (1, 1, 2, dict(bx=True, pol=True, field=True)), (1, 2, 1, dict(substeps=True)), (1, 2, 1, dict(substeps=True, field=True)),
    (1, 2, 1, dict(substeps=True, sc=True)),
]


def gen(i, n):
    rng = ck.rng("gen", i)
    nimp, nch, Nmax, o = SHAPES[i % len(SHAPES)]
    o = dict(o)
    sub = o.pop("substeps", False)
    m = cases.general(rng, nimp, nch, Nmax + 1, **o)
    if sub:
        m.substeps = True
    syms = cases.symmetries(m)
    if sub:
        syms = [s for s in syms if s in ("QS", "QSZ", "SPSU2", "SPU1")]
    if m.polarized and m.bx:
        syms = ["U1"]
    sym = syms[(i // len(SHAPES) + rng.randrange(len(syms))) % len(syms)]
    if sym == "NONE":
        Nmax = Nmax if nch == 2 else min(Nmax, 2)
    kw = {}
    if rng.random() < 0.3:
        m.disc = "Y"
        kw["discretization"] = "Y"
    if rng.random() < 0.25:
        m.bandrescale = rng.choice([0.5, 2.0, 3.7])
        kw["bandrescale"] = repr(m.bandrescale)
    if rng.random() < 0.5:
        kw["betabar"] = repr(rng.uniform(0.3, 2.0))
    scaled = True
    if rng.random() < 0.2:
        kw["absolute"] = "true"
        scaled = False
    elif rng.random() < 0.2:
        kw["data_has_rescaled_energies"] = "false"
        scaled = False
    cplx = rng.random() < 0.3
    kw["diag"] = rng.choice(["zheev", "zheevr", "default"] if cplx else ["dsyev", "dsyevd", "dsyevr", "default"])
    if rng.random() < 0.3:
        kw["strategy"] = rng.choice(["all", "kept"])
    return dict(i=i, m=m, sym=sym, Nmax=Nmax, kw=kw, scaled=scaled, cplx=cplx, sub=sub)


def run(i):
    g = gen(i, None)
    m, sym, Nmax = g["m"], g["sym"], g["Nmax"]
    rng = ck.rng("run", i)
    d = common.scratch(ck.tmp, "c", i)
    try:
        kw = dict(g["kw"])
        if g["sub"]:
            kw["substeps"] = "true"
        p = cases.base_params(m, sym, dumpenergies="true", **kw)
        cases.write_case(d, m, sym, Nmax, p, cplx=rng if g["cplx"] else None, scale_energies=g["scaled"])
        key = f"{m.name}/{sym}/{'c' if g['cplx'] else 'r'}/{'sub' if g['sub'] else 'full'}/{i}"
        sample = dict(model=m.name, sym=sym, Lambda=m.Lambda, z=m.z, Nmax=Nmax, options=kw, complex=g["cplx"], impurity=m.params)
        r = nrgrun.run([NRG], d, timeout=200)
        files = cases.case_files(d)
        if r.timeout:
            return case(key, False, inconclusive="engine timed out", sample=sample)
        V = []
        td = nrgrun.read_td(d + "/td") or []
        cu = nrgrun.read_td(d + "/custom") or []
        nst = Nmax * m.nch if g["sub"] else Nmax
        if r.rc != 0 or not os.path.exists(d + "/DONE"):
            V.append(viol("run-failed", f"engine exit status {r.rc} on a valid model: {r.out[-300:]} {r.err[-300:]}", files))
            return case(key, True, sample=sample, violations=V)
        if len(td) != nst + 1 or len(cu) != nst + 1:
            V.append(viol("rows", f"td has {len(td)} rows, custom {len(cu)}, chain has {nst + 1} steps", files))
            return case(key, True, sample=sample, violations=V)
        t0 = time.time()
        R = phys.RefNRG(m, nst, labels=cases.labels(m), substeps=g["sub"], light=True)
        tref = time.time() - t0
        nq = 0
        worst = (0, "")
        def cmp(what, got, want, tol=2e-8, atol=2e-8):
            nonlocal nq, worst
            nq += 1
            err = abs(got - want) / (atol + tol * max(abs(got), abs(want)))
            if not err <= 1:
                if not err <= worst[0]:
                    worst = (err, f"{what}: engine {got!r}, exact diagonalization {want!r}")
        beta = float(kw.get("betabar", "1.0"))
        spec = cases.spectrum(d, sym, (lambda k: 1.0) if kw.get("absolute") else m.scale)
        nE = 0
        for it in range(nst + 1):
            T = td[it]["T"]
            cmp(f"temperature of step {it}", T, m.scale(it) / beta)
            ref = R.td(it, T)
            for k in td[it]:
                if k in ref:
                    cmp(f"td {k} at step {it}", td[it][k], ref[k])
            for name in cases.singlets(m):
                cmp(f"<{name}> at step {it}", cu[it].get(name, float("nan")), R.expv(it, cu[it].get("T", T), name))
            e = R.steps[it]["E"]
            e = e - e[0]
            if len(spec) != nst + 1 or len(spec[it]) != len(e):
                V.append(viol("dimension", f"step {it}: {len(spec[it]) if it < len(spec) else 0} states reported, Hilbert space has {len(e)}", files))
                break
            nE += len(e)
            raw = spec[it]
            spec[it] = raw - raw[0]
            bad = ~(np.abs(spec[it] - e) <= 2e-5 * (np.abs(raw).max() + m.scale(it) * 0.01))
            if bad.any():
                k = int(np.argmax(bad))
                V.append(viol("spectrum", f"step {it}: excitation {k} is {spec[it][k]!r}, exact diagonalization {e[k]!r}", files))
                break
        if worst[0] > 1:
            V.append(viol("value", worst[1], dict(files, td=common.slurp(d + "/td"), custom=common.slurp(d + "/custom"))))
        if os.environ.get("VERIF_PROF"):
            print(key, m.Lambda, "engine", round(r.wall, 2), "ref", round(tref, 2), flush=True)
        return case(key, True, dict(quantities_compared=nq, eigenvalues_compared=nE, steps=nst + 1), sample, V)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global ck, NRG
    ck = common.Check("E01", "exploration",
                      "random impurity+chain models (orbitals, channels, fields, pairing, spin-dependent chains, transverse fields, substeps, real "
                      "and complex arithmetic, scale options) run without truncation in a random compatible symmetry type; non-trivial = the engine "
                      "completed and every td/custom row and every eigenvalue was compared with dense diagonalization in Fock space",
                      ["LAPACK (numpy) diagonalization is correct", "models of up to 1024 states"])
    NRG = build.engine("main")
    ck.run(run, range(ck.n(66, 900)))
    ck.finish()


common.main(main)
