"""T01: nrgchain, the engine's built-in tridiagonalization and instantiate. Monitor:
every coefficient file, table and log line they write, against an independent
evaluation of the discretization integrals and an arbitrary-precision Lanczos
recurrence (vlib/star.py)."""
import os, sys, re, math, shutil, bisect
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common, tools, star, build, cases, nrgrun, phys
import numpy as np
from vlib.common import case, viol

ck = None
NRG = None


def column(path):
    t = tools.table(path)
    return None if t is None else (t[:, 0] if t.size else np.zeros(0))


def params(rng, p):
    """parameter file text: any order, comments, spaces, other sections"""
    L = [f"{k}{rng.choice(['=', ' = ', '= '])}{v}" for k, v in p.items()]
    rng.shuffle(L)
    for _ in range(rng.randint(0, 3)):
        L.insert(rng.randint(0, len(L)), rng.choice(["# Lambda=17", "", "   ", "unrelated=3", "#z=0.1"]))
    pre = rng.choice([[], [], ["[extra]", "Lambda=9", "z=0.2", ""]])
    post = rng.choice([[], [], ["[more]", "Lambda=7", "Nmax=2"]])
    return "\n".join(pre + ["[param]"] + L + post) + "\n"


def compare(c, what, xi, ze, want_xi, want_ze, strict, fx=1.0, fz=1.0):
    """fx: factor(s) applied to the printed xi"""
    fx = np.broadcast_to(np.asarray(fx, float), np.shape(want_xi))
    rel = 4e-15 if strict else 3e-9
    wx, wz = np.array(want_xi) * fx, np.array(want_ze) * fz
    c.arr(what + " xi", xi, wx, rel * np.abs(wx))
    if len(ze) == len(wz):
        c.arr(what + " zeta", ze, wz, (4e-15 if strict else 3e-9) * np.abs(wz) + (1e-25 if strict else 3e-9) * np.array(want_xi) * abs(fz))
    else:
        c.arr(what + " zeta", ze, wz, 1.0)


def startable(rng):
    """star Hamiltonian in the tables nrgchain exchanges"""
    kind = rng.choice(["log", "log", "log", "asym", "gap", "few", "lin", "onesided"])
    L = rng.choice([1.3, 1.7, 2.0, 3.0, 6.0])
    M = rng.randint(1, 8) if kind == "few" else rng.randint(10, 70)
    ep = [L ** -(m + rng.uniform(0, 0.3)) for m in range(M + 1)]
    em = list(ep) if kind == "log" and rng.random() < 0.4 else [L ** -(m + rng.uniform(0, 0.3)) for m in range(M + 1)]
    up = [L ** (-m / 2) * rng.uniform(0.5, 1) for m in range(M + 1)]
    um = list(up) if em == ep else [L ** (-m / 2) * rng.uniform(0.5, 1) for m in range(M + 1)]
    if kind == "asym":
        f = 10 ** rng.uniform(-6, 0)
        um = [x * f for x in um]
    if kind == "gap":
        g = rng.randint(3, M)
        for m in range(M + 1):
            if m >= g:
                up[m] = 0.0
                if rng.random() < 0.7:
                    um[m] = 0.0
    if kind == "lin":
        ep = sorted((rng.uniform(0.01, 1) for _ in range(M + 1)), reverse=True)
        em = sorted((rng.uniform(0.01, 1) for _ in range(M + 1)), reverse=True)
        up = [rng.uniform(0.1, 1) for _ in range(M + 1)]
        um = [rng.uniform(0.1, 1) for _ in range(M + 1)]
    if kind == "onesided":
        um = [0.0] * (M + 1)
    if rng.random() < 0.7:
        s = math.sqrt(sum(x * x for x in up + um))
        up, um = [x / s for x in up], [x / s for x in um]
    lev = len({x for x, y in zip(ep, up) if y} | {-x for x, y in zip(em, um) if y})
    if lev < 2:
        N = rng.randint(1, 6)
    elif rng.random() < 0.12:
        N = lev + rng.randint(-1, 8)            # longer than the star permits
    elif rng.random() < 0.15:
        N = max(1, lev - 2)                     # as long as the star permits
    else:
        N = min(max(1, lev - 2), rng.randint(1, 60))
    return kind, L, M, ep, em, up, um, max(1, N)


def verdict(c, V, what, r, xi, ze, ep, em, up, um, N, bits, files, scales=1.0, fz=1.0):
    """common rule for one tridiagonalization"""
    e = list(ep) + [-x for x in em]
    u = list(up) + list(um)
    ref = star.chain(e, u, N)
    if ref is None:
        if r.rc == 0:
            V.append(viol("chain-impossible", f"{what}: chain with Nmax={N} from a star with fewer levels was accepted (exit 0)", files))
        return 0, "impossible"
    wx, wz, _ = ref
    ok = star.enough(e, u, N, bits, wx, wz)
    if r.rc != 0:
        if ok:
            V.append(viol("chain-failed", f"{what}: exit {r.rc} for a star and precision ({bits}) that suffice: {r.err[-300:]}", files))
        elif not (r.err.strip()):
            V.append(viol("chain-silent", f"{what}: exit {r.rc} without a message", files))
        return 0, "rejected"
    if xi is None or ze is None:
        V.append(viol("chain-missing", f"{what}: exit 0 but xi/zeta are not written as numbers", files))
        return 0, "missing"
    compare(c, what, xi, ze, wx, wz, ok, scales, fz)
    if c.what:
        V.append(viol("chain", c.what, files))
    return 2 * (N + 1), "exact" if ok else "lenient"


def fromtables(i):
    rng = ck.rng("tables", i)
    d = common.scratch(ck.tmp, "t", i)
    try:
        kind, L, M, ep, em, up, um, N = startable(rng)
        bits = rng.choice([None, None, 4000, 1000, 600, 300, 150, 64])
        br = rng.choice([None, None, 2.0, rng.uniform(0.3, 5)])
        z = rng.choice([1.0, 0.5, rng.uniform(0.05, 1)])
        p = dict(Lambda=repr(L), z=repr(z), Nmax=N, mMAX=M)
        if bits:
            p["preccpp"] = bits
        if br:
            p["bandrescale"] = repr(br)
        resc = rng.random() < 0.3
        if resc:
            p["rescalexi"] = "true"
        byarg = rng.random() < 0.5
        if not byarg:
            p["nrgchain_tables_load"] = "true"
        open(d + "/param", "w").write(params(rng, p))
        for n, t in (("de_pos", ep), ("de_neg", em), ("du_pos", up), ("du_neg", um)):
            tools.write(f"{d}/{n}.dat", [[x] for x in t], rng=None)
        r = tools.run("nrgchain", ["l"] if byarg else [], d, timeout=120)
        if r.timeout:
            return case(f"tables/{i}", False, inconclusive="timed out")
        files = dict(tools.files_of(d), stderr=r.err[-2000:])
        sc = np.array([(1 - 1 / L) / math.log(L) * L ** (-(n + 1 - 1) / 2 + 1 - z) for n in range(N + 1)]) if resc else 1.0
        c, V = tools.Cmp(), []
        n, how = verdict(c, V, f"nrgchain from tables ({kind}, Lambda={L:.3g}, mMAX={M}, Nmax={N}, preccpp={bits or 'default'})", r, column(d + "/xi.dat"), column(d + "/zeta.dat"),
                         ep, em, up, um, N, bits or 2000, files, (br or 1.0) / sc, br or 1.0)
        return case(f"tables/{i}", True, {"coefficients": n, "tables " + how: 1}, dict(tool="nrgchain l", kind=kind, Lambda=L, mMAX=M, Nmax=N, preccpp=bits, verdict=how), V)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Lin:
    """piecewise linear function, constant outside the table; vectorless and plain"""

    def __init__(self, t):
        self.x = [a for a, _ in t]
        self.y = [b for _, b in t]
        self.I = [0.0]
        for k in range(1, len(t)):
            self.I.append(self.I[-1] + (self.x[k] - self.x[k - 1]) * (self.y[k] + self.y[k - 1]) / 2)

    def __call__(self, v):
        if v <= self.x[0]:
            return self.y[0]
        if v >= self.x[-1]:
            return self.y[-1]
        k = bisect.bisect_right(self.x, v) - 1
        t = (v - self.x[k]) / (self.x[k + 1] - self.x[k])
        return self.y[k] + t * (self.y[k + 1] - self.y[k])

    def integ(self, a, b):
        """exact integral from a to b, a<b"""
        pts = [a] + [x for x in self.x if a < x < b] + [b]
        return math.fsum((q - p) * (self(p) + self(q)) / 2 for p, q in zip(pts, pts[1:]))


def bath(rng):
    """tabulated hybridization function on both sides"""
    rows = []
    D = rng.choice([1.0, 1.0, 0.8, 0.99])
    kind = rng.choice(["flat", "smooth", "power", "asym", "noisy"])
    for s in (1, -1):
        n = rng.choice([2, 5, rng.randint(10, 200)])
        lo = 10 ** rng.uniform(-9, -2)
        xs = sorted(set([D] + [D * (lo / D) ** (k / max(1, n - 1)) * (1 + (rng.uniform(-0.2, 0.2) / n if 0 < k < n - 1 else 0)) for k in range(1, n)]))
        a = rng.uniform(0.1, 2)
        ex = rng.choice([0.0, 0.5, 1.0, -0.3])
        for x in xs:
            if kind == "flat":
                y = a
            elif kind == "smooth":
                y = a * (1 + 0.5 * math.sin(3 * s * x + a))
            elif kind == "power":
                y = a * x ** ex
            elif kind == "asym":
                y = a * (1 if s > 0 else 10 ** rng.uniform(-3, -2))
            else:
                y = a * rng.uniform(0.2, 1)
            rows.append((s * x, y))
    return kind, rows


def fulltable(i):
    rng = ck.rng("full", i)
    d = common.scratch(ck.tmp, "f", i)
    try:
        flat = rng.random() < 0.2
        kind, rows = bath(rng)
        L = rng.choice([1.3, 1.5, 2.0, 2.0, 3.0, 5.0, 10.0])
        z = rng.choice([1.0, 1.0, 0.5, 0.25, rng.uniform(0.01, 1)])
        N = rng.randint(1, 45)
        M = rng.choice([None, rng.randint(2, 80)])
        mM = M or 2 * N
        br = rng.choice([None, None, None, rng.uniform(0.4, 3)]) if not flat else rng.choice([None, rng.uniform(0.4, 3)])
        adapt = rng.random() < 0.5 and not flat
        p = dict(Lambda=repr(L), z=repr(z), Nmax=N, nrgchain_tables_save="true")
        if M:
            p["mMAX"] = M
        if br:
            p["bandrescale"] = repr(br)
        if adapt or rng.random() < 0.3:
            p["adapt"] = "true" if adapt else "false"
        bits = rng.choice([None, None, None, 3000, 400, 128])
        if bits:
            p["preccpp"] = bits
        dos = rng.choice(["Delta.dat", "Delta.dat", "rho.txt"])
        if dos != "Delta.dat":
            p["dos"] = dos
        if flat:
            p["band"] = "flat"
        resc = rng.random() < 0.2
        if resc:
            p["rescalexi"] = "true"
        xm = rng.choice([mM + 3, 30, 12])
        p["xmax"] = xm
        open(d + "/param", "w").write(params(rng, p))
        b = br or 1.0
        if not flat:
            rr = [(x * b, y / b) for x, y in rows]
            rng.shuffle(rr) if rng.random() < 0.3 else None
            if rng.random() < 0.4:
                rr.append((0.0, 1.0))
            tools.write(f"{d}/{dos}", [list(t) + ([1.0] if rng.random() < 0.1 else []) for t in rr], rng=rng, comments=True)
            # the values the tool reads
            rr = [(abs(x), y, x > 0) for x, y in rr if x != 0]

        def smooth(lim, first):
            # mesh functions: positive, slowly varying, constant at large x
            a, w, ph = rng.uniform(0, 0.15), rng.uniform(0.2, 1), rng.uniform(0, 6)
            st = rng.choice([1 / 64, 1 / 16, 0.25])
            x, t = first, []
            while x < xm:
                t.append((x, lim * (1 + a * math.sin(w * x + ph) * math.exp(-0.2 * (x - first)) - (0 if first == 1 else a * math.sin(w * first + ph)) * math.exp(-(x - first)))))
                x += st
            return t
        lin = {}
        if not flat:
            for s, suf in ((True, ""), (False, "NEG")):
                g = smooth(1.0, 2.0)
                f = smooth((1 - 1 / L) / math.log(L), 1.0)
                if adapt:
                    tools.write(f"{d}/GSOL{suf}.dat", g, rng=rng, comments=True)
                tools.write(f"{d}/FSOL{suf}.dat", f, rng=rng, comments=True)
                t = sorted((x / b, y * b) for x, y, q in rr if q == s)
                lin[s] = (Lin(t), Lin(g), Lin(f))
        r = tools.run("nrgchain", [], d, timeout=120)
        if r.timeout:
            return case(f"full/{i}", False, inconclusive="timed out")
        files = dict(tools.files_of(d), stderr=r.err[-2000:], stdout=r.out[-6000:])
        c, V = tools.Cmp(), []
        what = f"nrgchain {'flat' if flat else kind} Lambda={L:.3g} z={z:.3g} mMAX={mM} Nmax={N}{' adapt' if adapt else ''}{' bandrescale' if br else ''}"
        tab = {n: column(f"{d}/{n}.dat") for n in ("de_pos", "de_neg", "du_pos", "du_neg", "theta")}
        if any(t is None for t in tab.values()) or any(len(tab[n]) != mM + 1 for n in tab if n != "theta"):
            return case(f"full/{i}", True, violations=[viol("tables-missing", f"{what}: exit {r.rc}, tables {[None if t is None else len(t) for t in tab.values()]} {r.err[-300:]}", files)])
        # discretization tables
        W, E = {}, {}
        for s, suf in ((True, "pos"), (False, "neg")):
            if flat:
                eps = [1.0 if z + m + 1 <= 2 else L ** (2 - (z + m + 1)) for m in range(mM + 2)]
                W[s] = [0.5 * (eps[m] - eps[m + 1]) for m in range(mM + 1)]
                E[s] = []
                for m in range(mM + 1):
                    x = z + m + 1
                    j = math.floor(x)
                    zz = x - j
                    E[s].append((1 - L ** -zz) / math.log(L) + 1 - zz if j == 1 else (1 - 1 / L) / math.log(L) * L ** (2 - x))
            else:
                rho, g, f = lin[s]
                eps = [1.0 if z + m + 1 <= 2 else (g(z + m + 1) if adapt else 1.0) * L ** (2 - (z + m + 1)) for m in range(mM + 2)]
                W[s] = [rho.integ(eps[m + 1], eps[m]) for m in range(mM + 1)]
                E[s] = [f(z + m + 1) * L ** (2 - (z + m + 1)) for m in range(mM + 1)]
                # the tool forms differences of integrals: absolute rounding error
        theta = math.fsum(W[True] + W[False])
        c.arr(what + " theta", tab["theta"], [theta], 1e-13 * theta)
        for s, suf in ((True, "pos"), (False, "neg")):
            tot = max(math.fsum(W[True]), math.fsum(W[False]), theta)
            w2 = tab["du_" + suf] ** 2 * theta
            c.arr(what + f" weights {suf}", w2, W[s], 1e-12 * np.array(W[s]) + 2e-15 * tot)
            c.arr(what + f" energies {suf}", tab["de_" + suf], E[s], 1e-12 * np.array(E[s]))
        if c.what:
            V.append(viol("tables", c.what, files))
        c2 = tools.Cmp()
        sc = np.array([(1 - 1 / L) / math.log(L) * L ** (-(n + 1 - 1) / 2 + 1 - z) for n in range(N + 1)]) if resc else 1.0
        # the chain must be that of the tables the tool itself used (they are printed exactly)
        n, how = verdict(c2, V, what, r, column(d + "/xi.dat"), column(d + "/zeta.dat"), list(tab["de_pos"]), list(tab["de_neg"]), list(tab["du_pos"]),
                         list(tab["du_neg"]), N, bits or 2000, files, b / sc, b)
        return case(f"full/{i}", True, {"coefficients": n, "table entries": 4 * (mM + 1), "full " + how: 1}, dict(tool="nrgchain", what=what, verdict=how), V)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def badinput(i):
    """input from which no chain can be made must be reported"""
    rng = ck.rng("bad", i)
    d = common.scratch(ck.tmp, "b", i)
    try:
        p = dict(Lambda="2.0", z="0.7", Nmax=12, mMAX=30)
        rows = [(x * s, 0.5) for s in (1, -1) for x in (1e-6, 1e-3, 0.5, 1.0)]
        f = [(1 + 0.25 * k, 0.7) for k in range(140)]
        kind = rng.choice(["onesided", "negative", "nofile", "nof", "zero", "Lambda", "z", "mMAX", "onecol", "empty", "shortf", "noprec", "noparam", "valid"])
        if kind == "onesided":
            rows = [r for r in rows if r[0] > 0]
        if kind == "negative":
            rows[rng.randrange(len(rows))] = (0.3, -0.1)
        if kind == "zero":
            rows = [(x, 0.0) for x, _ in rows]
        if kind == "Lambda":
            p["Lambda"] = rng.choice(["1.0", "0.5", "-2", "nan"])
        if kind == "z":
            p["z"] = rng.choice(["0", "-0.1", "1.5", "nan"])
        if kind == "mMAX":
            p["mMAX"] = rng.choice([0, -3])
        if kind == "noprec":
            p["preccpp"] = rng.choice([0, 5, 10])
        if kind == "shortf":
            f = f[:1]
        if kind != "noparam":
            open(d + "/param", "w").write(params(rng, p))
        if kind != "nofile":
            tools.write(d + "/Delta.dat", rows if kind not in ("onecol", "empty") else [[x] for x, _ in rows] if kind == "onecol" else [], rng=None)
        for suf in ("", "NEG"):
            if kind != "nof" or suf == rng.choice(["", "NEG"]):
                tools.write(f"{d}/FSOL{suf}.dat", f, rng=None)
        r = tools.run("nrgchain", [], d, timeout=60)
        if kind == "nof" and os.path.exists(d + "/FSOL.dat") and os.path.exists(d + "/FSOLNEG.dat"):
            kind = "valid"
        V = []
        if kind == "valid":
            if r.rc != 0:
                V.append(viol("valid-rejected", f"nrgchain rejects valid input: exit {r.rc} {r.err[-200:]}", tools.files_of(d)))
        elif r.rc == 0 and not r.timeout:
            V.append(viol("accepted", f"nrgchain: exit 0 for unusable input ({kind} {p})", tools.files_of(d)))
        elif not r.timeout and not r.err.strip():
            V.append(viol("no-message", f"nrgchain: exit {r.rc} without a message ({kind} {p})", tools.files_of(d)))
        return case(f"bad/{kind}/{i}", True, {"unusable inputs": kind != "valid"}, dict(kind=kind, params=p), V, inconclusive="timed out" if r.timeout else None)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def engine(i):
    """tri=cpp in the engine: the coefficients it logs, and a run with them given explicitly"""
    rng = ck.rng("engine", i)
    d = common.scratch(ck.tmp, "e", i)
    try:
        nch = rng.choice([1, 1, 1, 2])
        pol = rng.random() < 0.3
        N = rng.randint(2, 4) if nch == 1 else 1
        br = rng.choice([None, None, rng.uniform(0.5, 3)])
        m = cases.general(rng, 1, nch, N + 1, field=pol, pol=pol)
        if br:
            m.bandrescale = br
        b = br or 1.0
        sets = [(ch, s) for s in ((0, 1) if pol else (0,)) for ch in range(nch)]
        T, ref = {}, {}
        ok = True
        imp = False
        # the engine tridiagonalizes up to the chain length given in the data file
        Nh = N
        kind = "log"
        bits = rng.choice([None, None, 600, 1500, 128, 64])
        for k in sets:
            while True:
                kd, L, M, ep, em, up, um, n_ = startable(rng)
                if len(set(ep) | {-x for x in em}) > 2 * N + 4 and kd not in ("few",):
                    break
            kind = kd
            T[k] = (ep, em, up, um)
            e, u = ep + [-x for x in em], up + um
            ref[k] = star.chain(e, u, Nh)
            if ref[k] is None:
                imp = True
            else:
                ok = ok and star.enough(e, u, Nh, bits or 2000, *ref[k][:2])
        syms = [s for s in cases.symmetries(m) if s in ("QS", "QSZ", "U1", "SPU1", "SPSU2")] if not pol else ["QSZ", "U1", "SPU1"]
        sym = rng.choice(syms)
        kw = dict(dumpannotated="0")
        if br:
            kw["bandrescale"] = repr(br)
        if bits:
            kw["preccpp"] = bits
        p = cases.base_params(m, sym, **kw)
        txt = phys.data_file(m, sym, Nh)
        tail = ["T"]
        for j in range(4):
            for k in sets:
                t = T[k][j]
                tail += [str(len(t) - 1)] + [phys.fmt(x) for x in t]
        a = os.path.join(d, "a")
        os.makedirs(a)
        open(a + "/data", "w").write(txt + "\n".join(tail) + "\n")
        open(a + "/param", "w").write(nrgrun.param_text(dict(p, tri="cpp")))
        r = nrgrun.run([NRG], a, timeout=150)
        if r.timeout:
            return case(f"engine/{i}", False, inconclusive="timed out")
        files = {"a_" + k: v for k, v in tools.files_of(a).items()}
        what = f"engine tri=cpp {sym} ch={nch}{' polarized' if pol else ''} {kind} Nmax={Nh} preccpp={bits or 'default'}"
        V = []
        if imp:
            if r.rc == 0:
                V.append(viol("engine-impossible", f"{what}: accepted a star with too few levels", files))
            return case(f"engine/{i}", True, {"engine impossible": 1}, dict(what=what), V)
        if r.rc != 0:
            if ok:
                V.append(viol("engine-failed", f"{what}: exit {r.rc} although star and precision suffice: {(r.err + r.out)[-300:]}", files))
            return case(f"engine/{i}", True, {"engine rejected": 1}, dict(what=what), V)
        # logged coefficients
        c = tools.Cmp()
        ch = -1
        got = {}
        for l in r.out.splitlines():
            q = re.match(r"Tridiagonalisation, ch=(\d+)", l)
            if q:
                ch = int(q.group(1))
                got[ch] = ([], [])
            q = re.match(r"\s*(xi|zeta)\((\d+)\)=\s*(\S+)", l)
            if q and ch >= 0:
                got[ch][0 if q.group(1) == "xi" else 1].append(float(q.group(3)))
        for j, k in enumerate(sets):
            x, zz = got.get(j, ([], []))
            compare(c, f"{what} channel {j}", x, zz, ref[k][0], ref[k][1], ok)
        if c.what:
            V.append(viol("engine-chain", c.what, files))
        # the same run with the reference coefficients given as tables
        n2 = len(sets) * 2 * (Nh + 1)
        if ok:
            for what_, idx in (("xi", 0), ("zeta", 1)):
                setattr(m, what_, [[[x * b for x in ref[(ch_, s)][idx]] for s in (0, 1)] if pol else [x * b for x in ref[(ch_, 0)][idx]] for ch_ in range(nch)])
            z = os.path.join(d, "z")
            os.makedirs(z)
            # the impurity block of the data file must stay the same
            ztxt = txt[:txt.index("\nz\n") + 1] + phys.data_file(m, sym, Nh)[phys.data_file(m, sym, Nh).index("\nz\n") + 1:]
            open(z + "/data", "w").write(ztxt)
            open(z + "/param", "w").write(nrgrun.param_text(p))
            r2 = nrgrun.run([NRG], z, timeout=150)
            if r2.timeout or r2.rc != 0:
                return case(f"engine/{i}", False, inconclusive=f"comparison run failed: {r2.err[-200:]}")
            for f in ("td", "custom"):
                A, B = tools.table(a + "/" + f), tools.table(z + "/" + f)
                if A is None or B is None:
                    V.append(viol("engine-output", f"{what}: {f} is missing or not numeric", files))
                    continue
                c3 = tools.Cmp()
                c3.arr(f"{what}: {f} with the engine's own coefficients and with the same given as tables", A, B, 1e-9 * (np.abs(B) + 1e-3 * np.abs(B).max(initial=1)))
                n2 += B.size
                if c3.what:
                    V.append(viol("engine-use", c3.what, files))
        return case(f"engine/{i}", True, {"engine values": n2}, dict(what=what), V)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global ck, NRG
    ck = common.Check("T01", "exploration", "a case counts if at least one tridiagonalization (tool or engine) was compared coefficient by coefficient, or its rejection was judged",
                      ["the representative energies and meshes are those of the given tables, interpolated linearly"])
    tools.need(["nrgchain"])
    NRG = build.engine("main")
    ck.run(fromtables, range(ck.n(130, 1500)))
    ck.run(fulltable, range(ck.n(90, 1200)))
    ck.run(badinput, range(ck.n(40, 200)))
    ck.run(engine, range(ck.n(40, 500)))
    ck.finish()


common.main(main)
