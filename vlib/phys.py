"""Reference physics in Fock space: model builders, data-file generators for
several symmetry types, exact diagonalization and an independent NRG with a
complete-basis (FDM) implementation. Nothing here is derived from /repo's code.
"""
import itertools, math
import numpy as np
import scipy.sparse as sp

UP, DO = 0, 1


class Fock:
    """orbitals 0..n-1, each with spin up/down; index of mode (o,s) = 2*o+s.
    Later orbitals are 'to the right' (Jordan-Wigner string over earlier modes)."""

    def __init__(self, norb):
        self.norb = norb
        self.dim = 4 ** norb
        c1 = sp.csr_matrix(np.array([[0., 1.], [0., 0.]]))
        z = sp.csr_matrix(np.diag([1., -1.]))
        i2 = sp.identity(2, format="csr")
        self.c = {}
        for m in range(2 * norb):
            op = sp.identity(1, format="csr")
            for k in range(2 * norb):
                op = sp.kron(op, z if k < m else (c1 if k == m else i2), format="csr")
            self.c[(m // 2, m % 2)] = op
        self.cd = {k: v.T.tocsr() for k, v in self.c.items()}

    def n(self, o, s):
        return self.cd[(o, s)] @ self.c[(o, s)]

    def num(self, o):
        return self.n(o, UP) + self.n(o, DO)

    def I(self):
        return sp.identity(self.dim, format="csr")

    def N(self):
        return sum(self.num(o) for o in range(self.norb))

    def Sz(self, o=None):
        os_ = range(self.norb) if o is None else [o]
        return sum(0.5 * (self.n(k, UP) - self.n(k, DO)) for k in os_)

    def Sp(self, o=None):
        os_ = range(self.norb) if o is None else [o]
        return sum(self.cd[(k, UP)] @ self.c[(k, DO)] for k in os_)

    def hop(self, a, b):
        return sum(self.cd[(a, s)] @ self.c[(b, s)] + self.cd[(b, s)] @ self.c[(a, s)] for s in (UP, DO))

    def SS(self, a, b):
        spm = self.Sp(a) @ self.Sp(b).T
        return self.Sz(a) @ self.Sz(b) + 0.5 * (spm + spm.T)


# --------------------------------------------------------------------------
class Model:
    """impurity orbitals 0..nimp-1, first chain sites nimp..nimp+nch-1 (one per channel)"""

    def __init__(self, nimp, nch, Lambda, z, xi, zeta, himp, ops, name="", extra=None):
        self.nimp, self.nch, self.Lambda, self.z = nimp, nch, Lambda, z
        self.xi, self.zeta = xi, zeta          # [ch][n], or [ch] -> [spin][n] if polarized
        self.himp = himp                       # function(Fock)->sparse H of the seed cluster
        self.ops = ops                         # name -> (type 's'/'d'/'t', function(Fock)->sparse or dict)
        self.name = name
        self.extra = extra or {}
        self.polarized = False
        self.substeps = False
        self.disc, self.bandrescale = "Z", 1.0
        self.polarized = self.bx = self.field = self.sc = False
        self.delta = self.kappa = None

    def chain(self, what, ch, s, n):
        t = getattr(self, what)[ch]
        return t[s][n] if self.polarized else t[n]


def lam_scale(Lambda, z, N, disc="Z"):
    """scale of shell N as in the user documentation: for discretization=Z
    SCALE(N) = (1-1/L)/ln L * L^(1-z) * L^(-(N-1)/2); Yoshida: prefactor (1+1/L)/2"""
    pre = 0.5 * (1 + 1 / Lambda) if disc == "Y" else (1 - 1 / Lambda) / math.log(Lambda)
    return pre * Lambda ** (1 - z) * Lambda ** (-(N - 1) / 2)


# --------------------------------------------------------------------------
def cg_half(S2, m2, s2):
    """<S m; 1/2 s | S' m+s> for S'=S+1/2 and S-1/2; arguments doubled. Returns (plus, minus)"""
    S, m, s = S2 / 2, m2 / 2, s2 / 2
    M = m + s
    d = 2 * S + 1
    if s > 0:
        return math.sqrt(max(0, (S + M + .5) / d)), -math.sqrt(max(0, (S - M + .5) / d))
    return math.sqrt(max(0, (S - M + .5) / d)), math.sqrt(max(0, (S + M + .5) / d))


def cg(j1, m1, j2, m2, J, M):
    """Clebsch-Gordan <j1 m1; j2 m2|J M>; all arguments doubled"""
    if m1 + m2 != M or not abs(j1 - j2) <= J <= j1 + j2 or abs(m1) > j1 or abs(m2) > j2 or abs(M) > J or (j1 + j2 + J) % 2:
        return 0.0
    f = lambda x2: math.factorial(x2 // 2)
    pre = math.sqrt((J + 1) * f(J + j1 - j2) * f(J - j1 + j2) * f(j1 + j2 - J) / f(j1 + j2 + J + 2))
    pre *= math.sqrt(f(J + M) * f(J - M) * f(j1 - m1) * f(j1 + m1) * f(j2 - m2) * f(j2 + m2))
    tot = 0.0
    for k in range(0, (j1 + j2 + J) // 2 + 1):
        a = [k * 2, j1 + j2 - J - 2 * k, j1 - m1 - 2 * k, j2 + m2 - 2 * k, J - j2 + m1 + 2 * k, J - j1 - m2 + 2 * k]
        if min(a) < 0:
            continue
        d = 1
        for x in a:
            d *= f(x)
        tot += (-1) ** k / d
    return pre * tot


class Seed:
    """eigenstates of the seed cluster, organised by symmetry"""

    def __init__(self, model, symtype):
        self.m, self.sym = model, symtype
        F = self.F = Fock(model.nimp + model.nch)
        self.H = model.himp(F).toarray()
        Nq = np.rint(F.N().diagonal()).astype(int) - F.norb
        Sz2 = np.rint(2 * F.Sz().diagonal()).astype(int)
        par = np.where((Nq + F.norb) % 2 == 0, 1, -1)
        self.blocks = {}   # label -> (energies, vectors(columns = highest-weight states))
        su2 = symtype in ("QS", "SPSU2")
        if symtype == "QS":
            lab = [(q, s) for q, s in zip(Nq, Sz2)]
        elif symtype == "SPSU2":
            lab = [(s,) for s in Sz2]
        elif symtype == "QSZ":
            lab = [(q, s + 1) for q, s in zip(Nq, Sz2)]
        elif symtype == "SPU1":
            lab = [(s + 1,) for s in Sz2]
        elif symtype in ("U1",):
            lab = [(q,) for q in Nq]
        elif symtype == "NONE":
            lab = [(0,)] * F.dim
        elif symtype == "P":
            lab = [(p,) for p in par]
        else:
            raise ValueError(symtype)
        idx = {}
        for i, l in enumerate(lab):
            idx.setdefault(tuple(int(x) for x in l), []).append(i)
        if su2:
            Sp = F.Sp().toarray()
            self.Sm = Sp.T
            for l, ii in sorted(idx.items()):
                s2 = l[-1]
                if s2 < 0:
                    continue
                # highest-weight states: kernel of S+ inside the sector
                A = Sp[:, ii]
                u, sv, vt = np.linalg.svd(A)
                rank = int((sv > 1e-9).sum())
                null = vt[rank:].T
                if null.shape[1] == 0:
                    continue
                h = null.T @ self.H[np.ix_(ii, ii)] @ null
                e, v = np.linalg.eigh(h)
                V = np.zeros((F.dim, len(e)))
                V[ii, :] = null @ v
                self.blocks[l[:-1] + (s2 + 1,)] = (e, V)
        else:
            for l, ii in sorted(idx.items()):
                e, v = np.linalg.eigh(self.H[np.ix_(ii, ii)])
                V = np.zeros((F.dim, len(e)))
                V[ii, :] = v
                self.blocks[l] = (e, V)
        self.su2 = su2
        self.E0 = min(b[0][0] for b in self.blocks.values())

    # states of multiplet with projection M2 (doubled)
    def lowered(self, lab, M2):
        e, V = self.blocks[lab]
        S2 = lab[-1] - 1
        m2 = S2
        while m2 > M2:
            S, m = S2 / 2, m2 / 2
            V = self.Sm @ V / math.sqrt((S + m) * (S - m + 1))
            m2 -= 2
        return V

    def reduced_doublet(self, opud, la, lb):
        """<a||O||b> with <S M|O_s|S' M'> = CG(S' M' 1/2 s|S M) <a||O||b>"""
        Sa, Sb = la[-1] - 1, lb[-1] - 1
        if abs(Sa - Sb) != 1:
            return None
        for s, s2 in ((UP, 1), (DO, -1)):
            M2 = Sa
            if abs(M2 - s2) > Sb:
                continue
            plus, minus = cg_half(Sb, M2 - s2, s2)
            c = plus if Sa == Sb + 1 else minus
            if abs(c) < 1e-9:
                continue
            A = self.lowered(la, M2)
            B = self.lowered(lb, M2 - s2)
            return A.T @ (opud[s] @ B) / c
        return None


def reduced_triplet(self, tq, la, lb):
    """<a||T||b> with <S M|T_q|S' M'> = CG(S' M' 1 q|S M) <a||T||b>; tq: {q: sparse}"""
    Sa, Sb = la[-1] - 1, lb[-1] - 1
    if not (abs(Sa - Sb) in (0, 2)) or Sa + Sb < 2:
        return None
    q2 = Sa - Sb
    M2 = Sa
    c = cg(Sb, M2 - q2, 2, q2, Sa, M2)
    A = self.lowered(la, M2)
    B = self.lowered(lb, M2 - q2)
    return A.T @ (tq[q2 // 2] @ B) / c


Seed.reduced_triplet = reduced_triplet


def fmt(x):
    return repr(float(x)) if x != 0 else "0."


def mat_block(lines, M):
    for r in M:
        lines.append(" ".join(fmt(x) for x in r))


def allowed_f(sym, la, lb):
    """quantum-number selection rule for creation operators"""
    if sym == "QS":
        return la[0] == lb[0] + 1 and abs(la[1] - lb[1]) == 1
    if sym == "QSZ":
        return la[0] == lb[0] + 1 and abs(la[1] - lb[1]) == 1
    if sym == "SPSU2":
        return abs(la[0] - lb[0]) == 1
    if sym == "SPU1":
        return abs(la[0] - lb[0]) == 1
    if sym == "U1":
        return la[0] == lb[0] + 1
    if sym == "NONE":
        return True
    if sym == "P":
        return la[0] == -lb[0]


def data_file(model, sym, Nmax, ops=None, cplx=None, scale_energies=True):
    """text of an NRG input data file for the model in the given symmetry representation"""
    S = Seed(model, sym)
    F = S.F
    L = ["# Input file for NRG Ljubljana (generated)", "# symtype \t" + sym, "#!9",
         "# Number of channels, chain sites, subspaces: ", f"{model.nch} {Nmax} {len(S.blocks)}"]
    if cplx:
        L.insert(2, "# COMPLEX")
    scale = model.scale0()
    phase = {l: np.array([cplx.uniform(0, 2 * math.pi) for _ in b[0]]) if cplx else None for l, b in S.blocks.items()}
    L.append(f"# SCALE {scale!r}")
    for l, (e, V) in S.blocks.items():
        L.append(" ".join(str(x) for x in l))
        L.append(str(len(e)))
        L.append(" ".join(fmt((x - S.E0) / (scale if scale_energies else 1.0)) for x in e))

    def doublet(opd):
        """opd: {UP: sparse, DO: sparse} transforming as a creation operator"""
        el = []
        for la in S.blocks:
            for lb in S.blocks:
                if not allowed_f(sym, la, lb):
                    continue
                if S.su2:
                    M = S.reduced_doublet(opd, la, lb)
                    if M is None:
                        continue
                else:
                    M = S.blocks[la][1].T @ ((opd[UP] + opd[DO]) @ S.blocks[lb][1])
                el.append((la, lb, M))
        return el

    def single(op, rule):
        el = []
        for la in S.blocks:
            for lb in S.blocks:
                if not rule(la, lb):
                    continue
                el.append((la, lb, S.blocks[la][1].T @ (op @ S.blocks[lb][1])))
        return el

    def emit(head, el):
        L.append(head)
        L.append(str(len(el)))
        for la, lb, M in el:
            L.append(" ".join(str(x) for x in la + lb))
            if cplx:
                M = np.exp(-1j * phase[la])[:, None] * M * np.exp(1j * phase[lb])[None, :]
                for r in M:
                    L.append(" ".join(f"({float(x.real)!r},{float(x.imag)!r})" for x in r))
            else:
                mat_block(L, M)

    spinful_f = sym in ("U1", "NONE", "P")
    order = {"U1": (UP, DO), "NONE": (DO, UP), "P": (DO, UP)}.get(sym)
    for ch in range(model.nch):
        o = model.nimp + ch
        if spinful_f:
            for k, s in enumerate(order):
                emit(f"f {ch} {k}", single(F.cd[(o, s)], lambda a, b: allowed_f(sym, a, b)))
            if sym in ("NONE", "P"):
                for k, s in enumerate(order):
                    emit(f"f {ch} {k + 2}", single(F.c[(o, s)], lambda a, b: allowed_f(sym, a, b)))
        else:
            emit(f"f {ch} 0", doublet({UP: F.cd[(o, UP)], DO: F.cd[(o, DO)]}))
    L.append("e")
    L.append(fmt(S.E0))
    for name, (typ, fn) in model.ops.items():
        if ops is not None and name not in ops:
            continue
        op = fn(F)
        if typ == "s":
            emit("s" + name, single(op, lambda a, b: a == b))
        elif typ == "t":
            if spinful_f:
                continue
            el = []
            for la in S.blocks:
                for lb in S.blocks:
                    if la[:-1] != lb[:-1] or abs(la[-1] - lb[-1]) not in (0, 2):
                        continue
                    if S.su2:
                        M = S.reduced_triplet(op, la, lb)
                        if M is None:
                            continue
                    else:
                        M = S.blocks[la][1].T @ (op[(la[-1] - lb[-1]) // 2] @ S.blocks[lb][1])
                    el.append((la, lb, M))
            emit("t" + name, el)
        elif typ == "d":
            if spinful_f:
                for s, suf in ((UP, "_u"), (DO, "_d")):
                    emit("d" + name + suf, single(op[s], lambda a, b: allowed_f(sym, a, b)))
            else:
                emit("d" + name, doublet(op))
    L.append("z")
    for what in ("xi", "zeta"):
        if model.polarized:
            sets = [(ch, s) for s in (UP, DO) for ch in range(model.nch)]
        else:
            sets = [(ch, None) for ch in range(model.nch)]
        for ch, s in sets:
            t = getattr(model, what)[ch]
            t = t[s] if s is not None else t
            L.append(str(Nmax))
            for n in range(Nmax + 1):
                L.append(fmt(t[n]))
    if sym in ("SPSU2", "SPU1", "NONE", "P"):
        L.append("Z")
        for what in ("delta", "kappa"):
            for ch in range(model.nch * (2 if model.polarized else 1)):
                L.append(str(Nmax))
                t = getattr(model, what, None)
                L += [fmt(t[ch % model.nch][n]) if t else "0." for n in range(Nmax + 1)]
    return "\n".join(L) + "\n"


def scale(self, it):
    """energy scale of step it (0 = seed)"""
    n = it / self.nch if self.substeps else it
    return lam_scale(self.Lambda, self.z, n, self.disc) * self.bandrescale


def scale0(self):
    return scale(self, 0)


Model.scale = scale
Model.scale0 = scale0


# --------------------------------------------------------------------------
def siam(rng, nch=1, sym_ph=False, field=False, Lambda=None, z=None, Nmax=4, U=None, ranges=None):
    """single-impurity Anderson model (nch=2: impurity coupled to two channels)"""
    Lambda = Lambda or rng.choice([1.8, 2.0, 2.5, 3.0, 4.0])
    z = z or rng.choice([1.0, 1.0, 0.5, 0.75])
    U = rng.uniform(0, 2.0) if U is None else U
    eps = -U / 2 if sym_ph else rng.uniform(-1.5, 0.5)
    V = [rng.uniform(0.1, 0.6) for _ in range(nch)]
    B = rng.uniform(-0.4, 0.4) if field else 0.0
    xi, zeta = [], []
    for ch in range(nch):
        x = [lam_scale(Lambda, z, n + 1) * rng.uniform(0.6, 1.3) for n in range(Nmax + 1)]
        y = [0.0 if sym_ph else lam_scale(Lambda, z, n) * rng.uniform(-0.5, 0.5) for n in range(Nmax + 1)]
        xi.append(x)
        zeta.append(y)

    def himp(F):
        H = eps * F.num(0) + U * (F.n(0, UP) @ F.n(0, DO)) + B * F.Sz(0)
        for ch in range(nch):
            H = H + V[ch] * F.hop(0, 1 + ch) + zeta[ch][0] * F.num(1 + ch)
        return H

    ops = {
        "n_d": ("s", lambda F: F.num(0)),
        "n_d^2": ("s", lambda F: F.num(0) @ F.num(0)),
        "hop0": ("s", lambda F: F.hop(0, 1)),
        "SdSf": ("s", lambda F: F.SS(0, 1)),
        "n_f": ("s", lambda F: F.num(1)),
        "A_d": ("d", lambda F: {UP: F.cd[(0, UP)], DO: F.cd[(0, DO)]}),
        "A_f": ("d", lambda F: {UP: F.cd[(1, UP)], DO: F.cd[(1, DO)]}),
    }
    if field:
        ops["SZd"] = ("s", lambda F: F.Sz(0))
    return Model(1, nch, Lambda, z, xi, zeta, himp, ops,
                 name=f"siam{nch}", extra=dict(U=U, eps=eps, V=V, B=B))


# --------------------------------------------------------------------------
class RefNRG:
    """Independent NRG in the (N, Sz)-labelled Fock representation.

    Adds, per step, one site of every channel (or a single channel's site when
    substeps=True). All energies are absolute (not rescaled)."""

    def __init__(self, model, nsteps, keep_rule=None, labels="NS", substeps=False, light=False):
        """keep_rule(step, sorted excitation energies, scale) -> number kept"""
        self.m = model
        self.light = light      # diagonal expectation values only at the last step
        self.steps = []
        F = Fock(model.nimp + model.nch)
        H = sp.csr_matrix(model.himp(F))
        if labels == "NS":
            lab = list(zip(np.rint(F.N().diagonal()).astype(int), np.rint(2 * F.Sz().diagonal()).astype(int)))
        elif labels == "N":
            lab = [(int(x), 0) for x in np.rint(F.N().diagonal())]
        elif labels == "PS":
            lab = list(zip(np.rint(F.N().diagonal()).astype(int) % 2, np.rint(2 * F.Sz().diagonal()).astype(int)))
        else:  # parity only
            lab = [(int(x) % 2, 0) for x in np.rint(F.N().diagonal())]
        self.labmode = labels
        fd = {(ch, s): F.cd[(model.nimp + ch, s)] for ch in range(model.nch) for s in (UP, DO)}
        ops = {}
        for name, (typ, fn) in model.ops.items():
            o = fn(F)
            if typ == "s":
                ops[(name, None)] = sp.csr_matrix(o)
            elif typ == "d":
                for s in (UP, DO):
                    ops[(name, s)] = sp.csr_matrix(o[s])
            elif typ == "t":
                for q in (-1, 0, 1):
                    ops[(name, q)] = sp.csr_matrix(o[q])
        n_tot = np.rint(F.N().diagonal()).astype(int)
        self.sub = substeps
        loc = Fock(1)
        cl = {s: loc.c[(0, s)].toarray() for s in (UP, DO)}
        nl = [np.rint(loc.n(0, s).diagonal()).astype(float) for s in (UP, DO)]
        self._add_step(H, lab, fd, ops, 0, nsteps == 0)
        nst = nsteps
        for it in range(nst):
            prev = self.steps[-1]
            k = keep_rule(it, prev["E"] - prev["E"][0], prev) if keep_rule else len(prev["E"])
            prev["nkeep"] = k
            E = prev["E"][:k]
            if substeps:
                N, chs = it // model.nch, [it % model.nch]
            else:
                N, chs = it, list(range(model.nch))
            par = np.array([(-1.0) ** l[0] for l in prev["lab"][:k]])
            labs = [prev["lab"][i] for i in range(k)]
            csr = sp.csr_matrix
            newf = {key: csr(v[:k, :k]) for key, v in prev["f"].items()}
            cur_ops = {key: csr(v[:k, :k]) for key, v in prev["ops"].items()}
            H = sp.diags(E).tocsr()
            P = par
            I4 = sp.identity(4, format="csr")
            kron = lambda A, B: sp.kron(A, B, format="csr")
            for ch in chs:
                n0 = H.shape[0]
                In = sp.identity(n0, format="csr")
                Hn = kron(H, I4)
                D = sp.diags(P).tocsr()
                for s in (UP, DO):
                    x = model.chain("xi", ch, s, N)
                    zt = model.chain("zeta", ch, s, N + 1)
                    # hop: f+_N a_{N+1} + h.c., a = P x c_loc
                    t = kron(newf[(ch, s)] @ D, csr(cl[s]))
                    Hn = Hn + x * (t + t.T)
                    Hn = Hn + zt * kron(In, sp.diags(nl[s] - 0.5))
                if getattr(model, "delta", None):
                    pr = cl[UP].T @ cl[DO].T
                    Hn = Hn + model.delta[ch][N + 1] * kron(In, csr(pr + pr.T))
                if getattr(model, "kappa", None):
                    # kappa * (f+_{N,u} f+_{N+1,d} - f+_{N,d} f+_{N+1,u} + h.c.)
                    t = kron(newf[(ch, UP)] @ D, csr(cl[DO].T)) - kron(newf[(ch, DO)] @ D, csr(cl[UP].T))
                    Hn = Hn + model.kappa[ch][N] * (t + t.T)
                # extend operators
                for key in list(newf):
                    if key[0] != ch:
                        newf[key] = kron(newf[key], I4)
                for key in list(cur_ops):
                    cur_ops[key] = kron(cur_ops[key], I4)
                for s in (UP, DO):
                    newf[(ch, s)] = kron(D, csr(cl[s].T))
                labs = [self._ladd(l, i) for l in labs for i in range(4)]
                P = np.kron(P, np.array([1., -1., -1., 1.]))
                H = Hn
            H = H.tocsr()
            self._add_step(H, labs, newf, cur_ops, it + 1, it + 1 == nst)
        self.steps[-1]["nkeep"] = 0

    def _ladd(self, l, i):
        nu, nd = i // 2, i % 2  # local basis index = 2*n_up + n_do
        if self.labmode == "NS":
            return (l[0] + nu + nd, l[1] + nu - nd)
        if self.labmode == "N":
            return (l[0] + nu + nd, 0)
        if self.labmode == "PS":
            return ((l[0] + nu + nd) % 2, l[1] + nu - nd)
        return ((l[0] + nu + nd) % 2, 0)

    def _add_step(self, H, lab, f, ops, it, last=False):
        idx = {}
        for i, l in enumerate(lab):
            idx.setdefault((int(l[0]), int(l[1])), []).append(i)
        n = len(lab)
        E = np.zeros(n)
        nl = []
        p = 0
        blk = {}
        for l, ii in sorted(idx.items()):
            ii = np.array(ii)
            h = H[ii][:, ii]
            e, v = np.linalg.eigh(h.toarray() if sp.issparse(h) else h)
            E[p:p + len(ii)] = e
            blk[l] = (ii, v, slice(p, p + len(ii)))
            nl += [l] * len(ii)
            p += len(ii)
        o = np.argsort(E, kind="stable")

        def rot(op):
            out = np.zeros((n, n))
            for la, (ia, va, pa) in blk.items():
                rows = op[ia]
                nz = np.unique(rows.indices) if sp.issparse(rows) else np.flatnonzero(np.abs(rows).max(axis=0) > 0)
                for lb in sorted(set(self._lab_of(lab[j]) for j in nz)):
                    ib, vb, pb = blk[lb]
                    r = rows[:, ib]
                    out[pa, pb] = va.T @ (r @ vb)
            return out[np.ix_(o, o)]

        U = np.zeros((n, n))
        for l, (ii, v, q) in blk.items():
            U[ii, q] = v
        U = U[:, o]
        st = dict(E=E[o], lab=[nl[i] for i in o], U=U, it=it)
        if last and self.light:
            st["f"] = {}
            st["ops"] = {}
            for k, v in ops.items():
                if k[1] is not None:
                    continue
                dg = np.zeros(n)
                for l, (ii, w, q) in blk.items():
                    dg[q] = (w * (v[ii][:, ii] @ w)).sum(axis=0)
                st["ops"][k] = dg[o]
        else:
            st["f"] = {k: rot(v) for k, v in f.items()}
            st["ops"] = {k: rot(v) for k, v in ops.items()}
        self.steps.append(st)

    @staticmethod
    def _lab_of(l):
        return (int(l[0]), int(l[1]))

    # ---------------- thermodynamics of a shell
    def td(self, it, T):
        st = self.steps[it]
        x = (st["E"] - st["E"][0]) / T
        w = np.exp(-x)
        Z = w.sum()
        e1, e2 = (w * x).sum() / Z, (w * x * x).sum() / Z
        r = {"<E>": e1, "<E^2>": e2, "C": e2 - e1 * e1, "F": -math.log(Z), "S": e1 + math.log(Z)}
        p = w / Z
        if self.labmode in ("NS", "N"):
            half = self.m.nimp + self.m.nch + (it if self.sub else it * self.m.nch)
            q = np.array([l[0] - half for l in st["lab"]])
            r["<Q>"], r["<Q^2>"] = (p * q).sum(), (p * q * q).sum()
        if self.labmode in ("NS", "PS"):
            s = np.array([l[1] / 2 for l in st["lab"]])
            r["<Sz>"], r["<Sz^2>"] = (p * s).sum(), (p * s * s).sum()
        return r

    def expv(self, it, T, name):
        st = self.steps[it]
        w = np.exp(-(st["E"] - st["E"][0]) / T)
        o = st["ops"][(name, None)]
        return float((w * (o if o.ndim == 1 else np.diag(o))).sum() / w.sum())

    # ---------------- full density matrix
    def fdm(self, T):
        """returns dict with thermodynamics; stores reduced density matrices per shell"""
        d = 4.0 if self.sub else 4.0 ** self.m.nch
        n = len(self.steps)
        EG = min(st["E"][0] for st in self.steps)
        logw, Es = [], []
        for it, st in enumerate(self.steps):
            k = st["nkeep"]
            for e in st["E"][k:]:
                logw.append(-(e - EG) / T + (n - 1 - it) * math.log(d))
                Es.append(e)
        logw, Es = np.array(logw), np.array(Es)
        mx = logw.max()
        w = np.exp(logw - mx)
        Zl = w.sum()
        lnZ = mx + math.log(Zl)
        p = w / Zl
        E = (p * Es).sum()
        varE = (p * (Es - E) ** 2).sum()
        F = -T * lnZ + EG
        # reduced density matrices (backward)
        rho = [None] * n
        K = None
        for it in range(n - 1, -1, -1):
            st = self.steps[it]
            k = st["nkeep"]
            dim = len(st["E"])
            R = np.zeros((dim, dim))
            lw = -(st["E"][k:] - EG) / T + (n - 1 - it) * math.log(d) - lnZ
            R[range(k, dim), range(k, dim)] = np.exp(lw)
            if it < n - 1:
                nx = self.steps[it + 1]
                full = nx["U"] @ rho[it + 1] @ nx["U"].T
                m = int(round(full.shape[0] / k))
                R[:k, :k] = full.reshape(k, m, k, m).trace(axis1=1, axis2=3)
            rho[it] = R
        self.rho = rho
        wn = []
        for it, st in enumerate(self.steps):
            k = st["nkeep"]
            wn.append(float(np.exp(-(st["E"][k:] - EG) / T + (n - 1 - it) * math.log(d) - lnZ).sum()) if len(st["E"]) > k else 0.0)
        return dict(F=F, E=E, C=varE / T ** 2, S=(E - F) / T, wn=wn)

    def fdm_expv(self, it, name):
        """the engine evaluates <O> over the states kept at this shell, i.e. the
        contribution of the later shells (all of it if nothing was discarded so far)"""
        k = self.steps[it]["nkeep"] or len(self.steps[it]["E"])
        return float(np.sum(self.rho[it][:k, :k] * self.steps[it]["ops"][(name, None)][:k, :k].T))

    def lehmann_fdm(self, A, B, sign=+1, parts="both"):
        """peaks (omega, weight) of C = <[A(t),B]_sign> for operators given as
        functions step-> matrices A (annihilation-like), B"""
        om, wt = [], []
        for it, st in enumerate(self.steps):
            k = st["nkeep"]
            E = st["E"]
            a, b = A(st), B(st)
            R = self.rho[it]
            gt = a * (b @ R).T
            ls = a * (R @ b).T
            W = np.zeros_like(gt)
            if parts in ("both", "gt"):
                W = W + gt
            if parts in ("both", "ls"):
                W = W + sign * ls
            Om = E[None, :] - E[:, None]
            mask = np.ones_like(W, bool)
            if it < len(self.steps) - 1:
                mask[:k, :k] = False
            om.append(Om[mask])
            wt.append(W[mask])
        return np.concatenate(om), np.concatenate(wt)
