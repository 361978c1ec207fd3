"""E03: truncation keeps exactly the states the documented rules prescribe.
Monitors: (1) the HDF5 dump of every step of real runs (eigenvalues, number kept
per subspace, Hamiltonians of the next step, operator matrices) and the printed
"Kept" lines against the rule evaluated by an independent implementation;
(2) the same rule evaluated by an independent NRG, compared with the spectra of
the last step; (3) partial diagonalization against full diagonalization."""
import os, sys, re, shutil, math, glob, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common, build, cases, phys, nrgrun, h5
import numpy as np
from vlib.common import case, viol

ck = None
NRG = None
H5 = dict(h5raw="true", h5all="true", h5ham="true", h5U="true")


def rule(x, K, N, last, factor=1.0):
    """number of states to keep out of the sorted values x (first = 0); returns (number, description)"""
    if K.get("keepall"):
        a = K["keepall"]
        if (a == "even" and N % 2 == 0) or (a == "odd" and N % 2 == 1) or str(N) in a.split(","):
            return len(x)
    if last and K.get("all_last"):
        return len(x)
    if K.get("keepenergy", -1) > 0:
        k = 1 + int((x <= K["keepenergy"] * factor).sum())
        k = min(max(k, K.get("keepmin", 0)), K["keep"])
    else:
        k = K["keep"]
    if k >= len(x):
        return len(x)
    extra = 0
    if K["safeguard"] > 0:
        while k < len(x) and extra < K["safeguardmax"] and x[k] - x[k - 1] <= K["safeguard"]:
            k += 1
            extra += 1
    return k


def params(rng, i, total, cap=250):
    """random truncation parameters"""
    total = min(total, cap)
    K = dict(keep=rng.randint(5, max(6, total)), safeguard=rng.choice([0.0, 1e-5, 1e-5, 1e-3, 0.05, 0.3]), safeguardmax=rng.choice([0, 1, 3, 20, 200]))
    if rng.random() < 0.6:
        K["keepenergy"] = rng.choice([rng.uniform(0.3, 6.0), rng.uniform(1.0, 4.0)])
        K["keep"] = rng.choice([K["keep"], cap])
        if rng.random() < 0.5:
            K["keepmin"] = rng.randint(1, min(K["keep"], total))
    if rng.random() < 0.3:
        K["keepall"] = rng.choice(["even", "odd", "0", "1", "0,2", "1,2", "3"])
    return K


def monitor(d, K, out, nch, substeps=False, partial=False, absolute=False, scale=None, fixeps=1e-15):
    """checks one run; returns (violations, observed, steps)"""
    x = h5.read(os.path.join(d, "raw.h5"))
    st = {}
    for k, a in x.items():
        p = k.split("/")
        if p[0].isdigit() and p[0] != "0":
            st.setdefault(int(p[0]), {})["/".join(p[1:])] = a
    V, obs = [], dict(steps=0, states=0, truncated_steps=0, subspaces=0, safeguard_steps=0, kept_all_steps=0)
    kept_lines = [(int(a), int(b)) for a, b in re.findall(r"^Kept: (\d+) out of (\d+), ratio", out, re.M)]
    names = sorted(st)
    if not names or names != list(range(1, len(names) + 1)):
        return [("dump", f"steps in the HDF5 dump: {names}")], obs, st
    info = []
    for n in names:
        s = st[n]
        E = {k.split("/")[1]: a for k, a in s.items() if k.startswith("eigen/") and k.endswith("/crit")}
        Z = {k.split("/")[1]: a for k, a in s.items() if k.startswith("eigen/") and k.endswith("/value_zero")}
        kept = {k.split("/")[1]: int(a[0]) for k, a in s.items() if k.startswith("eigen/") and k.endswith("/nrkept")}
        ham = {k.split("/")[1]: a.shape[0] for k, a in s.items() if k.startswith("hamiltonian/") and k.endswith("/matrix")}
        info.append((E, kept, ham))
        if not E or set(E) != set(kept):
            V.append(("dump", f"step {n}: eigenvalues for {len(E)} subspaces, kept counts for {len(kept)}"))
            continue
        allx = np.sort(np.concatenate(list(E.values())))
        obs["steps"] += 1
        obs["states"] += len(allx)
        obs["subspaces"] += len(E)
        if allx[0] != 0.0:
            V.append(("reference", f"step {n}: lowest energy is {allx[0]!r}, not 0"))
        for I in E:
            if I in Z and len(Z[I]) == len(E[I]) and np.abs(Z[I] - E[I]).max() > max(fixeps, 1e-15) * 1.01:
                V.append(("criterion", f"step {n}, subspace {I}: truncation criterion differs from the energy by {np.abs(Z[I] - E[I]).max()!r}"))
                break
            if np.any(np.diff(E[I]) < -1e-12):
                V.append(("order", f"step {n}, subspace {I}: energies not ascending"))
            if not partial and len(E[I]) != ham.get(I, len(E[I])):
                V.append(("computed", f"step {n}, subspace {I}: {len(E[I])} eigenvalues for a matrix of dimension {ham.get(I)}"))
        ndx = n - 1
        N = ndx
        last = n == names[-1]
        factor = scale(ndx + 1) if absolute else 1.0
        want = rule(allx, K, N, last, factor)
        got = sum(kept.values())
        cut = allx[want - 1]
        pred = {I: int((E[I] <= cut).sum()) for I in E}
        if want == len(allx):
            pred = {I: len(E[I]) for I in E}
        if got != sum(pred.values()) or pred != kept:
            bad = {I: (kept[I], pred[I]) for I in E if kept[I] != pred[I]}
            V.append(("count", f"step {n}: {got} states kept, the rule {K} prescribes {sum(pred.values())} of {len(allx)} (cut at {cut!r}); (kept, prescribed) "
                      f"by subspace: {dict(list(bad.items())[:6])}"))
        mxk = max([E[I][kept[I] - 1] for I in E if kept[I] > 0], default=0)
        mnd = min([E[I][kept[I]] for I in E if kept[I] < len(E[I])], default=np.inf)
        if mnd < mxk:
            V.append(("order-of-discarded", f"step {n}: a state at {mnd!r} is discarded while one at {mxk!r} is kept"))
        obs["truncated_steps"] += int(got < len(allx))
        obs["kept_all_steps"] += int(got == len(allx))
    # next step is built from exactly the kept states
    for n in names[1:]:
        E, kept, ham = info[n - 1]
        pk = info[n - 2][1]
        cols = {}
        for k, a in st[n].items():
            if k.startswith("U/") and not k.endswith("-imag"):
                p = k.split("/")
                anc = p[2].split("|")[0]
                if a.shape[1]:
                    cols[p[1]] = cols.get(p[1], 0) + a.shape[1]
                    if a.shape[1] != pk.get(anc, 0) and a.shape[1] > 0:
                        V.append(("ancestor", f"step {n}: subspace {p[1]} is built from {a.shape[1]} states of {anc}, {pk.get(anc, 0)} were kept"))
        for I, c in cols.items():
            if I in ham and ham[I] != c:
                V.append(("dimension", f"step {n}: subspace {I} has dimension {ham[I]}, its ancestors provide {c} states"))
    if not partial:
        if len(kept_lines) == 2 * len(names) and kept_lines[:len(names)] == kept_lines[len(names):]:
            kept_lines = kept_lines[:len(names)]   # the density-matrix pass reports the same truncation again
        if len(kept_lines) != len(names):
            V.append(("log", f"{len(kept_lines)} 'Kept' lines for {len(names)} steps"))
        else:
            for n, (a, b) in zip(names, kept_lines):
                E, kept, ham = info[n - 1]
                if a != sum(kept.values()) or b != sum(len(e) for e in E.values()):
                    V.append(("log", f"step {n}: printed {a} out of {b}, dump has {sum(kept.values())} of {sum(len(e) for e in E.values())}"))
    return V, obs, info


SHAPES = [(1, 1, 5, {}, 60), (1, 1, 5, dict(field=True), 60), (1, 1, 4, dict(field=True, pol=True), 60), (1, 1, 4, dict(sc=True), 60), (1, 1, 4, dict(bx=True), 60),
          (2, 1, 3, {}, 90), (1, 2, 2, {}, 60), (1, 2, 2, dict(field=True), 60), (1, 1, 6, dict(ph=True), 50), (1, 2, 2, dict(substeps=True), 60),
          (1, 1, 4, dict(sc=True, field=True), 60), (1, 2, 2, dict(substeps=True, field=True), 60)]


def multiplets(st, sym):
    """[(energy, multiplicity)] sorted, from the states of the reference NRG"""
    E, lab = st["E"], st["lab"]
    if sym not in ("QS", "SPSU2"):
        return [(e, 1) for e in E]
    sec = {}
    for e, l in zip(E, lab):
        sec.setdefault((l[0], l[1]), []).append(e)
    out = []
    for (q, s), es in sec.items():
        if s < 0:
            continue
        up = sorted(sec.get((q, s + 2), []))
        es = sorted(es)
        # remove the members that belong to higher multiplets
        used = [False] * len(es)
        for u in up:
            k = min((abs(es[j] - u), j) for j in range(len(es)) if not used[j])[1]
            used[k] = True
        out += [(es[j], s + 1) for j in range(len(es)) if not used[j]]
    return sorted(out)


def run(i):
    t00 = time.time()
    rng = ck.rng("case", i)
    nimp, nch, Nmax, o, tot = SHAPES[i % len(SHAPES)]
    o = dict(o)
    sub = o.pop("substeps", False)
    m = cases.general(rng, nimp, nch, Nmax + 1, **o)
    m.substeps = sub
    syms = cases.symmetries(m)
    if sub:
        syms = [s for s in syms if s in ("QS", "QSZ", "SPSU2", "SPU1")]
    sym = syms[(i // len(SHAPES) + rng.randrange(len(syms))) % len(syms)]
    if sym == "NONE" and nimp + nch > 2:
        tot = 40
    K = params(rng, i, tot, 250 if nch == 1 else 120 if sym in ("QS", "QSZ", "SPSU2", "SPU1") else 60)
    if nch > 1:
        K.pop("keepall", None)
    nst = Nmax * nch if sub else Nmax
    fdm = rng.random() < 0.25
    if fdm:
        K["all_last"] = True
    absolute = rng.random() < 0.15
    if fdm and K["safeguard"] > 0.04:
        K["safeguard"] = 1e-3
    kw = {k: v for k, v in K.items() if k != "all_last"}
    cplx = rng.random() < 0.25
    if fdm:
        kw.update(fdm="true", T=repr(m.scale(nst)))
    if absolute:
        kw["absolute"] = "true"
    if not fdm and rng.random() < 0.15:
        kw["lastall"] = "true"
        K["all_last"] = True
    if sub:
        kw["substeps"] = "true"
    if rng.random() < 0.3:
        kw["strategy"] = rng.choice(["all", "kept"])
    key = f"rule/{m.name}/{sym}/{'c' if cplx else 'r'}/{i}"
    d = common.scratch(ck.tmp, "r", i)
    try:
        p = cases.base_params(m, sym, dumpenergies="true", **dict(H5, **kw))
        cases.write_case(d, m, sym, Nmax, p, cplx=ck.rng("cp", i) if cplx else None, scale_energies=not absolute)
        sample = dict(model=m.name, sym=sym, rule=K, Lambda=m.Lambda, Nmax=Nmax, complex=cplx, absolute=absolute)
        r = nrgrun.run([NRG], d, timeout=90)
        if r.timeout:
            return case(key, False, inconclusive="engine timed out", sample=sample)
        files = cases.case_files(d)
        files["stdout"] = r.out[-30000:]
        if r.rc != 0:
            return case(key, True, sample=sample, violations=[viol("run-failed", f"exit status {r.rc} for {K}: {r.out[-200:]} {r.err[-300:]}", files)])
        v, obs, info = monitor(d, K, r.out, nch, substeps=sub, absolute=absolute, scale=m.scale)
        V = [viol(a, b, files) for a, b in v[:4]]
        obs["safeguard_steps"] = len(re.findall(r"^Safeguard: keep additional", r.out, re.M))
        # the same rule in the independent NRG
        amb = [False]
        counts = []

        def rl(it, exc, st):
            if it == 0:
                return len(exc)
            mu = multiplets(st, sym)
            e = np.array([a for a, _ in mu])
            f = m.scale(it)
            unit = f if not absolute else 1.0
            x = (e - e[0]) / unit
            N = it - 1
            k = rule(x, K, N, False, f if absolute else 1.0)
            ks = [rule(x, dict(K, safeguard=K["safeguard"] * (1 + s) + (s * 1e-7 if K["safeguard"] > 0 else 0), keepenergy=K.get("keepenergy", -1) + (s * 1e-6 if K.get("keepenergy", -1) > 0 else 0)), N, False, f if absolute else 1.0)
                  for s in (-1e-3, 1e-3)]
            counts.append(k)
            if any(q != k for q in ks) or (k < len(x) and x[k] - x[k - 1] < 1e-7):
                amb[0] = True
                raise cases.NoGap()
            n = sum(q for _, q in mu[:k])
            if n > 330:
                raise cases.NoGap()
            return n
        compared = 0
        if not V:
            try:
                R = phys.RefNRG(m, nst, keep_rule=rl, labels=cases.labels(m), substeps=sub, light=True)
            except cases.NoGap:
                R = None
            got = [sum(q[1].values()) for q in info]
            for it, k in enumerate(counts[:-1] if R is None and amb[0] else counts):
                if it < len(got) and it + 1 < nst and got[it] != k:
                    V.append(viol("reference-count", f"step {it + 1}: the engine keeps {got[it]}, the independent NRG {k} multiplets with rule {K}", files))
                    break
                compared += 1
            if R is not None:
                spec = cases.spectrum(d, sym, (lambda k: 1.0) if absolute else m.scale)
                e = R.steps[-1]["E"] - R.steps[-1]["E"][0]
                g = spec[-1] - spec[-1][0]
                if len(e) != len(g):
                    V.append(viol("reference-dim", f"last step has {len(g)} states, independent NRG {len(e)}", files))
                elif np.abs(e - g).max() > 3e-5 * (np.abs(spec[-1]).max() + m.scale(nst)):
                    V.append(viol("reference-spectrum", f"last spectrum differs by {np.abs(e - g).max()!r} from the independent NRG", files))
                obs["runs_compared_with_reference_NRG"] = 1
        obs["steps_compared_with_reference_NRG"] = compared
        if os.environ.get("VERIF_PROF"):
            print(key, "engine", round(r.wall, 2), "total", round(time.time() - t00, 2), flush=True)
        return case(key, obs["truncated_steps"] > 0, obs, sample, V)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_partial(i):
    rng = ck.rng("partial", i)
    nimp, nch, Nmax, o, tot = SHAPES[(i * 5 + i // len(SHAPES)) % len(SHAPES)]
    o = dict(o)
    sub = o.pop("substeps", False)
    m = cases.general(rng, nimp, nch, Nmax + 1, **o)
    m.substeps = sub
    syms = cases.symmetries(m)
    if sub:
        syms = [s for s in syms if s in ("QS", "QSZ", "SPSU2", "SPU1")]
    sym = syms[(i // len(SHAPES) + rng.randrange(len(syms))) % len(syms)]
    K = params(rng, i, tot, 250 if nch == 1 else 120 if sym in ("QS", "QSZ", "SPSU2", "SPU1") else 60)
    K.pop("keepall", None)
    cplx = rng.random() < 0.3
    P = dict(diag="zheevr" if cplx else "dsyevr", diagratio=rng.choice([0.1, 0.3, 0.5, 0.8, rng.uniform(0.02, 0.99)]), restart="true",
             restartfactor=rng.choice([1.2, 1.5, 2.0, 3.0]))
    key = f"partial/{m.name}/{sym}/{'c' if cplx else 'r'}/{i}"
    sample = dict(model=m.name, sym=sym, rule=K, partial=P)
    res = []
    for tag, kw in (("full", dict(diag=P["diag"])), ("partial", P)):
        d = common.scratch(ck.tmp, tag, i)
        try:
            p = cases.base_params(m, sym, **dict(H5, **K, **kw, **(dict(substeps="true") if sub else {})))
            cases.write_case(d, m, sym, Nmax, p, cplx=ck.rng("cpp", i) if cplx else None)
            r = nrgrun.run([NRG], d, timeout=90)
            files = cases.case_files(d)
            files["stdout"] = r.out[-30000:]
            if r.timeout:
                return case(key, False, inconclusive="engine timed out", sample=sample)
            if r.rc != 0:
                return case(key, True, sample=sample, violations=[viol("run-failed", f"exit status {r.rc} for {K} {kw}: {r.out[-200:]} {r.err[-300:]}", files)])
            v, obs, info = monitor(d, K, r.out, nch, substeps=sub, partial=tag == "partial")
            if tag == "full" and v:
                return case(key, True, sample=sample, violations=[viol(a, b, files) for a, b in v[:3]])
            res.append((info, nrgrun.read_td(d + "/td"), len(re.findall(r"Restarting this iteration step", r.out)), files, v, r.out))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    (fi, ftd, _, _, _, _), (pi, ptd, restarts, files, v, out) = res
    V = []
    steps = fewer = 0
    amb = False
    for n in range(max(len(fi), len(pi))):
        if n >= len(fi) or n >= len(pi):
            V.append(viol("partial-steps", f"{len(pi)} steps with partial diagonalization, {len(fi)} with full", files))
            break
        E, kept, _ = fi[n]
        PE, pk, _ = pi[n]
        allx = np.sort(np.concatenate(list(E.values())))
        k = sum(kept.values())
        ks = {rule(allx, dict(K, safeguard=K["safeguard"] * (1 + s) + (s * 1e-6 if K["safeguard"] > 0 else 0), keepenergy=K.get("keepenergy", -1) + (s * 1e-4 if K.get("keepenergy", -1) > 0 else 0)), n, False) for s in (-1e-5, 0, 1e-5)}
        if len(ks) > 1 or any(j < len(allx) and allx[j] - allx[j - 1] < 1e-9 for j in ks | {k}):
            amb = True   # decision on a knife's edge: rounding may decide either way
            break
        if n + 1 == len(fi):
            break
        if kept != pk:
            bad = {I: (pk.get(I), kept[I]) for I in kept if kept[I] != pk.get(I)}
            V.append(viol("partial-count", f"step {n + 1}: with partial diagonalization {sum(pk.values())} states are kept, with full diagonalization "
                          f"{k}; (partial, full) by subspace: {dict(list(bad.items())[:6])}; rule {K}, {P}", files))
            break
        for I in E:
            a, b = E[I][:kept[I]], PE[I][:kept[I]]
            if len(a) and np.abs(a - b).max() > 1e-7 * (1 + allx[-1]):
                V.append(viol("partial-energies", f"step {n + 1}, subspace {I}: kept energies differ by {np.abs(a - b).max()!r} from full diagonalization", files))
                break
        fewer += int(sum(len(e) for e in PE.values()) < len(allx))
        steps += 1
    return case(key, steps > 0 and fewer > 0, dict(partial_steps_compared=steps, partial_steps_with_fewer_computed=fewer, restarts_seen=restarts,
                                                   knife_edge=int(amb)), sample, V)


CORPUS = None


def corpus():
    """small regression inputs of all symmetry types, used as models only"""
    out = []
    for d in sorted(glob.glob(build.REPO + "/test/c++*/*") + glob.glob(build.REPO + "/test/complex/*") + glob.glob(build.REPO + "/test/test_long/legacy_qst*")):
        f = os.path.join(d, "data")
        if os.path.isfile(f) and os.path.isfile(os.path.join(d, "param")) and os.path.getsize(f) < 250000:
            t = open(os.path.join(d, "param")).read()
            if re.search(r"floquet|^\s*resume|substeps\s*=\s*true|project\s*=", t, re.M):
                continue
            sym = re.search(r"^\s*symtype\s*=\s*(\w+)", t, re.M)
            if not sym:
                continue
            out.append((sym.group(1), d))
    return out


def run_corpus(a):
    i, sym, src = a
    rng = ck.rng("corpus", i)
    K = params(rng, i, 150)
    K["keep"] = min(K["keep"], 250)
    d = common.scratch(ck.tmp, "k", i)
    name = os.path.relpath(src, build.REPO + "/test")
    key = f"corpus/{sym}/{name}/{i}"
    try:
        for f in os.listdir(src):
            p = os.path.join(src, f)
            if os.path.isfile(p) and f not in ("DONE",):
                shutil.copy(p, d)
        drop = r"^\s*(keep|keepenergy|keepmin|keepall|safeguard|safeguardmax|diag|diagratio|restart\w*|specd|specs|spect|specq|specot|spec\w*|dmnrg\w*|fdm\w*|cfs\w*|finite\w*|done|fixeps|h5\w*|Nmax|log|Tmin)\s*=.*$"
        t = re.sub(drop, "", open(d + "/param").read(), flags=re.M)
        Nm = rng.choice([3, 4, 5, 6])
        add = "".join(f"{k}={v}\n" for k, v in dict(H5, **K, Nmax=Nm, fixeps=1e-15).items())
        t = re.sub(r"^\[param\]\s*$", "[param]\n" + add, t, count=1, flags=re.M)
        open(d + "/param", "w").write(t)
        r = nrgrun.run([NRG], d, timeout=40)
        sample = dict(corpus=name, sym=sym, rule=K, Nmax=Nm)
        if r.timeout:
            return case(key, False, dict(corpus_not_runnable=1), sample)
        if r.rc != 0:
            return case(key, False, dict(corpus_not_runnable=1), dict(sample, err=r.err[-200:] + r.out[-200:]))
        if re.search(r"^\s*lastall\s*=\s*true", t, re.M):
            K["all_last"] = True
        absolute = re.search(r"^\s*absolute\s*=\s*true", t, re.M)
        nch = 1
        if absolute:
            return case(key, False, dict(corpus_not_runnable=1), sample)
        v, obs, info = monitor(d, K, r.out, nch)
        files = cases.case_files(d)
        files["stdout"] = r.out[-30000:]
        return case(key, obs["truncated_steps"] > 0, dict(obs, **{f"steps_{sym}": obs["steps"]}), sample, [viol(a, b, files) for a, b in v[:4]])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global ck, NRG
    ck = common.Check("E03", "exploration",
                      "random models (and the regression inputs of every symmetry type, as models) run with random keep/keepenergy/keepmin/keepall/"
                      "safeguard/safeguardmax; non-trivial = at least one step discarded states and every step's kept states were compared with the rule, "
                      "or (partial) a partial diagonalization computed fewer states and was compared with the full one",
                      ["the HDF5 dump of the engine reports what the engine used (cross-checked with the Hamiltonians of the next step and an independent NRG)"])
    NRG = build.engine("main")
    only = os.environ.get("VERIF_CASE")
    if only:
        kind, n = only.split(":")
        r = dict(rule=run, partial=run_partial)[kind](int(n)) if kind != "corpus" else None
        print(r["key"], r["sample"], r["observed"], [v["kind"] + " " + v["what"] for v in r["violations"]])
        return
    ck.run(run, range(ck.n(60, 900)))
    ck.run(run_partial, range(ck.n(48, 700)))
    C = corpus()
    by = {}
    for s, d in C:
        by.setdefault(s, []).append(d)
    rng = ck.rng("pick")
    pick = []
    for s in sorted(by):
        rng.shuffle(by[s])
        pick += [(s, d) for d in by[s][:ck.n(3, 40)]]
    ck.run(run_corpus, [(i, s, d) for i, (s, d) in enumerate(pick)])
    ck.extra["symmetry_types_in_corpus"] = sorted(by)
    ck.finish()


common.main(main)
