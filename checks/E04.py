"""E04: full-density-matrix thermodynamics and expectation values are the exact
sums over the complete set of discarded states of all shells. Monitor: tdfdm,
customfdm and the shell weights printed by real truncated runs, against an
independent NRG with a complete-basis sum (vlib/phys.py, RefNRG.fdm)."""
import os, sys, re, shutil, time, math
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common, build, cases, phys, nrgrun
import numpy as np
from vlib.common import case, viol

ck = None
NRG = None
SHAPES = [(1, 1, 6, {}, 60), (1, 1, 7, dict(field=True), 50), (1, 1, 5, dict(field=True, pol=True), 60), (1, 1, 5, dict(sc=True), 60),
          (1, 1, 5, dict(bx=True), 50), (2, 1, 4, {}, 90), (1, 2, 3, {}, 60), (1, 2, 3, dict(field=True), 50), (1, 1, 6, dict(ph=True), 60),
          (1, 1, 3, {}, 0), (1, 1, 9, {}, 40), (1, 1, 5, dict(sc=True, field=True), 60), (1, 2, 2, dict(sc=True), 50)]


def run(i):
    rng = ck.rng("case", i)
    nimp, nch, Nmax, o, target = SHAPES[i % len(SHAPES)]
    m = cases.general(rng, nimp, nch, Nmax + 1, Lambda=rng.choice([2.0, 2.5, 3.0, 4.0]), **o)
    syms = cases.symmetries(m)
    sym = syms[(i // len(SHAPES) + rng.randrange(len(syms))) % len(syms)]
    d = common.scratch(ck.tmp, "c", i)
    try:
        try:
            ke, R = cases.truncated(rng, m, Nmax, target)
        except cases.NoGap:
            return case(f"nogap/{i}", False)
        nst = len(R.steps)
        T = m.scale(Nmax) * 10 ** rng.uniform(-0.7, math.log10(m.scale(0) / m.scale(Nmax)) + 0.5)
        n0 = rng.choice([0, 0, rng.randrange(0, Nmax)])
        kw = dict(T=repr(T), keepenergy=repr(ke), keepmin=0, fdm="true", fdmexpv="true", fdmexpvn=n0, strategy=rng.choice(["all", "kept"]), logall="false")
        cplx = rng.random() < 0.25
        p = cases.base_params(m, sym, **kw)
        cases.write_case(d, m, sym, Nmax, p, cplx=ck.rng("cp", i) if cplx else None)
        key = f"{m.name}/{sym}/{'c' if cplx else 'r'}/{i}"
        kept = [st["nkeep"] for st in R.steps]
        sample = dict(model=m.name, sym=sym, Lambda=m.Lambda, z=m.z, Nmax=Nmax, T=T, keepenergy=ke, states_kept=kept, complex=cplx)
        r = nrgrun.run([NRG], d, timeout=240)
        files = cases.case_files(d, ("tdfdm", "customfdm"))
        files["stdout"] = r.out[-20000:]
        if r.timeout:
            return case(key, False, inconclusive="engine timed out", sample=sample)
        if r.rc != 0 or not os.path.exists(d + "/DONE"):
            return case(key, True, sample=sample, violations=[viol("run-failed", f"engine exit status {r.rc}: {r.out[-200:]} {r.err[-300:]}", files)])
        V = []
        ref = R.fdm(T)
        td = nrgrun.read_td(d + "/tdfdm") or []
        cu = nrgrun.read_td(d + "/customfdm") or []
        if len(td) != 1 or len(cu) != 1:
            return case(key, True, sample=sample, violations=[viol("rows", f"tdfdm has {len(td)} rows and customfdm {len(cu)}, expected 1 each", files)])
        nq = 0
        worst = (1.0, None)
        sc = max(abs(ref["E"]), abs(ref["F"]), m.scale(0))

        def cmp(what, got, want, tol, atol):
            nonlocal nq, worst
            nq += 1
            e = abs(got - want) / (atol + tol * max(abs(got), abs(want)))
            if not e <= worst[0]:
                worst = (e, f"{what}: engine {got!r}, complete-basis sum {want!r}")
        cmp("T", td[0]["T"], T, 1e-9, 0)
        cmp("F_fdm", td[0]["F_fdm"], ref["F"], 1e-9, 1e-9 * sc)
        cmp("E_fdm", td[0]["E_fdm"], ref["E"], 1e-9, 1e-9 * sc)
        cmp("C_fdm", td[0]["C_fdm"], ref["C"], 1e-7, 1e-7)
        cmp("S_fdm", td[0]["S_fdm"], ref["S"], 1e-8, 1e-8 + 1e-10 * sc / T)
        for name in cases.singlets(m):
            cmp(f"fdm <{name}> at step {n0}", cu[0].get(name, float("nan")), R.fdm_expv(n0 + 1, name), 1e-7, 1e-8)
        w = {int(a): float(b) for a, b in re.findall(r"^w\[(\d+)\]=(\S+)$", r.out, re.M)}
        if w:
            if min(w.values()) < 0 or abs(sum(w.values()) - 1) > 1e-9:
                V.append(viol("weights", f"shell weights {w} are not a probability distribution", files))
            for n, x in w.items():
                if n + 1 < nst:
                    cmp(f"w[{n}]", x, ref["wn"][n + 1], 1e-7, 1e-9)
        if worst[1]:
            V.append(viol("value", worst[1], files))
        return case(key, max(kept[1:-1] or [0]) < max(len(st["E"]) for st in R.steps) or target == 0,
                    dict(quantities_compared=nq, shells=nst, shell_weights=len(w), states=sum(len(st["E"]) for st in R.steps),
                         truncated_runs=int(ke < 1e5)), sample, V)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global ck, NRG
    ck = common.Check("E04", "exploration",
                      "random models run with an energy cut-off placed in gaps of the spectrum, at random temperatures, symmetry types and shells; "
                      "non-trivial = the run completed and its tdfdm/customfdm/shell weights were compared with the complete-basis sum of an "
                      "independent NRG (shells really truncated, except the untruncated control family)",
                      ["LAPACK (numpy) is correct", "cut-offs are placed in gaps, so that both NRGs keep the same states"])
    NRG = build.engine("main")
    ck.run(run, range(ck.n(78, 1000)))
    ck.finish()


common.main(main)
