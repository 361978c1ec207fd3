"""T07: matrix, diag, unitary, h5write. Monitor: what the tools print and write for
random expressions and matrices, against ordinary arithmetic, the eigenvalue
equation and matrix products in extended precision."""
import os, sys, math, shutil, struct
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common, tools, h5
import numpy as np
from vlib.common import case, viol

ck = None


class Expr:
    """random expression with its text and value; sz bounds the rounding error"""

    def __init__(self, rng, env, coef, depth):
        self.rng, self.env, self.coef = rng, env, coef
        self.n = 0
        self.err = 0.0
        self.text, self.val, self.pr, self.tol = self.gen(depth)

    def sp(self):
        return self.rng.choice(["", "", "", " ", "  ", "\t"])

    def leaf(self):
        r = self.rng
        k = r.random()
        if k < 0.25:
            v = r.choice([r.randint(0, 9), r.randint(0, 100000), r.randint(0, 2**31 - 1)])
            return (r.choice(["", "", "0"]) if v < 1000 else "") + str(v), float(v), 9, 0.0
        if k < 0.55:
            v = r.choice([r.uniform(0, 10), 10 ** r.uniform(-12, 12), r.uniform(0, 1)])
            t = r.choice([repr(v), "%.17g" % v, "%.6f" % v, "%.10e" % v, "%.3E" % v])
            if "." not in t:
                # the language has d.ddde+xx, de+xx and integers
                t = t.replace("e", ".e") if "e" in t else t + "."
            if t.startswith("0.") and r.random() < 0.3:
                t = t[1:]
            return t, float(t), 9, 0.0
        if k < 0.6:
            m, e = r.randint(1, 9), r.randint(-9, 9)
            t = f"{m}e{r.choice(['', '+'] if e >= 0 else [''])}{e}"
            return t, float(t), 9, 0.0
        if k < 0.8 and self.env:
            n = r.choice(sorted(self.env))
            return n, self.env[n][0], 9, self.env[n][1]
        if self.coef:
            name, idx, v = r.choice(self.coef)
            s = self.sp
            return f"{name}{s()}[{s()}" + f"{s()},{s()}".join(map(str, idx)) + f"{s()}]", v, 9, 1e-15 * abs(v)
        return "1", 1.0, 9, 0.0

    def gen(self, depth):
        r = self.rng
        if depth <= 0 or r.random() < 0.12:
            return self.leaf()
        self.n += 1
        s = self.sp
        k = r.random()
        if k < 0.68:
            op = r.choice("+-*/")
            a, b = self.gen(depth - 1), self.gen(depth - 1)
            pr = 1 if op in "+-" else 2
            ta, tb = a[0], b[0]
            if a[2] < pr or r.random() < 0.1:
                ta = f"({s()}{ta}{s()})"
            if b[2] <= pr or r.random() < 0.1:
                tb = f"({s()}{tb}{s()})"
            with np.errstate(all="ignore"):
                x, y = a[1], b[1]
                if op == "/" and (y == 0 or abs(y) < 1e3 * b[3]):
                    op, pr = "*", 2
                v = {"+": x + y, "-": x - y, "*": x * y, "/": x / y if y else 0.0}[op]
                if op in "+-":
                    t = a[3] + b[3]
                elif op == "*":
                    t = a[3] * abs(y) + b[3] * abs(x)
                else:
                    t = (a[3] + abs(v) * b[3]) / (abs(y) - b[3])
                t += 3e-16 * abs(v)
            return f"{ta}{s()}{op}{s()}{tb}", v, pr, t
        if k < 0.82:
            a = self.gen(depth - 1)
            ta = a[0] if a[2] >= 3 and r.random() < 0.7 else f"({s()}{a[0]}{s()})"
            return f"-{s()}{ta}", -a[1], 3, a[3]
        a = self.gen(depth - 1)
        f = r.choice(["Sqrt", "sqrt", "exp", "log"])
        x, t = a[1], a[3]
        o, c = r.choice(["()", "[]"])
        if f == "exp":
            if not (abs(x) < 50 and t < 1e-3):
                f = "sqrt"
            else:
                v = math.exp(x)
                return f"exp{s()}{o}{s()}{a[0]}{s()}{c}", v, 9, v * (2 * t + 1e-15)
        if not x > 1e3 * t + 1e-300:
            return f"({a[0]})", x, 9, t
        if f == "log":
            return f"log{s()}{o}{s()}{a[0]}{s()}{c}", math.log(x), 9, 2 * t / x + 1e-15 * (1 + abs(math.log(x)))
        return f"{f}{s()}{o}{s()}{a[0]}{s()}{c}", math.sqrt(x), 9, t / math.sqrt(x) + 1e-15 * math.sqrt(x)


def matrix(i):
    rng = ck.rng("matrix", i)
    d = common.scratch(ck.tmp, "m", i)
    try:
        nch = rng.choice([0, 0, 1, 2, 3])
        sc = rng.random() < 0.25
        coef = []
        for ch in range(1, max(nch, 1) + 1):
            suf = (str(ch) if nch else "") + ".dat"

            def vec(n):
                v = [rng.choice([-1, 1, 1, 1]) * 10 ** rng.uniform(-6, 1) for _ in range(n)]
                return v
            for nm, fn in (("coefxi", "xi"), ("coefzeta", "zeta")) + ((("coefdelta", "scdelta"), ("coefkappa", "sckappa")) if sc else ()):
                v = vec(rng.randint(1, 12))
                with open(f"{d}/{fn}{suf}", "w") as g:
                    g.write(rng.choice(["\n", " "]).join(tools.num(rng, t) for t in v) + rng.choice(["\n", ""]))
                coef += [(nm, (ch, j), t) for j, t in enumerate(v)]
            if not sc:
                th = rng.uniform(0, 3)
                with open(f"{d}/theta{suf}", "w") as g:
                    g.write(tools.num(rng, th) + "\n")
                coef += [("gammaPolCh", (ch,), math.sqrt(th / math.pi))] * 4
            else:
                for a in "12":
                    for b in "12":
                        v = rng.uniform(-2, 2)
                        with open(f"{d}/V{a}{b}{suf}", "w") as g:
                            g.write(tools.num(rng, v) + "\n")
                        if ch == 1:
                            coef += [("coefV", (int(a), int(b)), v)] * 2
        env, lines, want, shape = {}, [], [], []
        pre = rng.choice([None, None, "-p", "-P"])
        names = ["U", "eps", "Gamma", "g_1", "aB9", "x", "J0", "logx", "expo", "sqrt2", "coef", "par", "e", "E", "gammaPol", "U1", "U12"]
        npr = [0]

        def expr(depth=None):
            e = Expr(rng, env, coef, rng.randint(0, 5) if depth is None else depth)
            npr[0] += e.n
            return e.text, e.val, e.tol
        if rng.random() < 0.7:
            lines.append("[param]" if rng.random() < 0.9 else "[extra]")
            if rng.random() < 0.5:
                lines.append(rng.choice(["model=siam", "symtype=QS", "prefix=clean", "name=a1.dat"]))
        files = 1
        body = []
        for _ in range(rng.randint(1, 14)):
            k = rng.random()
            if k < 0.3:
                n = rng.choice(names)
                t, v, tl = expr(rng.randint(0, 3))
                if not math.isfinite(v):
                    continue
                s1 = rng.choice(["", " "])
                if t[0].isalpha():
                    s2 = " "  # name=text without a blank is a string parameter
                else:
                    s2 = rng.choice(["", " "])
                body.append(f"{n}{s1}={s2}{t}")
                env[n] = (v, tl)
            elif k < 0.38:
                body.append(rng.choice(["# comment 1 2 + {", "", "#", "   "]))
            elif k < 0.62:
                t, v, tl = expr()
                body.append(rng.choice(["", " "]) + t)
                want.append([(v, tl)])
            elif k < 0.78:
                es = [expr(rng.randint(0, 3)) for _ in range(rng.randint(1, 5))]
                body.append("{" + rng.choice([",", ", ", ",\n", " , "]).join(e[0] for e in es) + "}")
                want.append([e[1:] for e in es])
            else:
                n, m = rng.randint(1, 5), rng.randint(1, 5)
                if n == 1:
                    m = max(m, 1)
                rows = [[expr(rng.randint(0, 3)) for _ in range(m)] for _ in range(n)]
                body.append("{" + rng.choice([",", ",\n ", ", "]).join("{" + rng.choice([",", ", ", ",\n"]).join(e[0] for e in r) + "}" for r in rows) + "}")
                want += [[e[1:] for e in r] for r in rows]
        lines += body
        # distribute over files, an included file and standard input
        nf = rng.choice([1, 1, 2, 3])
        cut = sorted(rng.randint(0, len(lines)) for _ in range(nf - 1))
        parts = [lines[a:b] for a, b in zip([0] + cut, cut + [len(lines)])]
        std = rng.random() < 0.2
        incl = False
        args = (["-c", nch] if nch else []) + (["-s"] if sc else []) + ([pre] if pre else [])
        if not std and rng.random() < 0.2 and len(parts[-1]) > 1:
            incl = True
            k = rng.randint(1, len(parts[-1]) - 1)
            with open(d + "/inc.txt", "w") as g:
                g.write("\n".join(parts[-1][k:]) + "\n")
            parts[-1] = parts[-1][:k] + ["parse inc.txt"]
        fl = []
        for k, p in enumerate(parts):
            with open(f"{d}/in{k}", "w") as g:
                g.write("\n".join(p) + "\n")
            fl.append(f"in{k}")
        if std:
            r = tools.run("matrix", args, d, stdin=("\n".join(lines) + "\n").encode())
        else:
            r = tools.run("matrix", args + fl, d)
        files = dict(tools.files_of(d), args=" ".join(map(str, args + fl)), stdout=r.out[:20000], stderr=r.err[-3000:])
        out = [l for l in r.out.splitlines() if not l.startswith("parsing ")]
        if pre == "-P":
            bad = [l for l in out if not l.startswith("= ")]
            out = [l[2:] for l in out]
        else:
            bad = []
        c = tools.Cmp()
        if r.rc != 0 or bad or len(out) != len(want):
            return case(f"matrix/{i}", True, violations=[viol("matrix-failed", f"matrix {args}: exit {r.rc}, {len(out)} lines printed, expected {len(want)} {bad[:1]} {r.err[-300:]}", files)])
        nv = 0
        for l, w in zip(out, want):
            try:
                g = [float(x) for x in l.split()]
            except ValueError:
                g = []
            if len(g) != len(w):
                c.worst, c.what = np.inf, f"matrix {args}: line {l!r}, expected {[v for v, _ in w]}"
                break
            for a, (v, t) in zip(g, w):
                if not math.isfinite(v) or not math.isfinite(t):
                    continue
                nv += 1
                c(f"matrix {args}: {l[:80]!r}", a, v, 4 * t + 1e-15 * abs(v) + 1e-300)
        V = [viol("matrix", c.what, files)] if c.what else []
        return case(f"matrix/{i}", nv > 0, dict(expressions=nv, operations=npr[0]), dict(tool="matrix", args=args, lines=len(lines), include=incl), V)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def sym(rng, n, kind):
    if kind == "diag":
        return np.diag([rng.choice([0.0, 1.0, rng.uniform(-2, 2)]) for _ in range(n)])
    if kind == "degenerate":
        Q = np.linalg.qr(np.array([[rng.gauss(0, 1) for _ in range(n)] for _ in range(n)]))[0]
        e = np.array([float(rng.randint(-1, 1)) for _ in range(n)])
        A = (Q * e) @ Q.T
        return (A + A.T) / 2
    A = np.array([[rng.gauss(0, 1) * 10 ** (rng.uniform(-8, 2) if kind == "scaled" else 0) for _ in range(n)] for _ in range(n)])
    if kind == "sparse":
        A *= np.array([[rng.random() < 0.3 for _ in range(n)] for _ in range(n)])
    return np.triu(A) + np.triu(A, 1).T


def readbin(path):
    b = common.slurp(path, 10**9)
    b = b if isinstance(b, bytes) else b.encode("latin1")
    n, m = struct.unpack("II", b[:8])
    return np.frombuffer(b[8:], dtype=np.float64).reshape(n, m)


def writemat(path, M, rng):
    rows = [[float(x) for x in r] for r in M]
    tools.write(path, rows, rng=rng)


def diag(i):
    rng = ck.rng("diag", i)
    d = common.scratch(ck.tmp, "d", i)
    try:
        n = rng.choice([1, 2, 3, rng.randint(1, 12), rng.randint(1, 40)])
        kind = rng.choice(["full", "diag", "degenerate", "scaled", "sparse"])
        H = sym(rng, n, kind)
        writemat(d + "/h.dat", H, rng)
        s = rng.choice([None, rng.uniform(-3, 3), 0.5])
        mode = rng.choice(["text", "bin"])
        args = (["-s", repr(s)] if s is not None else []) + ["-o", "val", "-O", "vec"] + (["-t", "-B"] if mode == "bin" else []) + (["-q"] if rng.random() < 0.5 else []) + (["-v", "-V"] if rng.random() < 0.2 else []) + ["h.dat"]
        r = tools.run("diag", args, d)
        fl = tools.files_of(d)
        E = tools.table(d + "/val")
        try:
            U = readbin(d + "/vec") if mode == "bin" else tools.table(d + "/vec")
        except (OSError, ValueError, struct.error):
            U = None
        if r.rc != 0 or E is None or U is None or E.shape != (n, 1) or U.shape != (n, n):
            return case(f"diag/{i}", True, violations=[viol("diag-failed", f"diag {args}: exit {r.rc}, {None if E is None else E.shape}, {None if U is None else U.shape} {r.err[-300:]}", fl)])
        e = E[:, 0] / (s if s is not None else 1.0) if s != 0 else E[:, 0]
        nrm = max(np.abs(H).max() * n, 1e-300)
        c = tools.Cmp()
        L = np.longdouble
        c.arr(f"diag {kind} {n}: H v - E v", (H.astype(L) @ U.T.astype(L) - U.T.astype(L) * e.astype(L)).astype(float), np.zeros((n, n)), 1e-13 * nrm)
        c.arr(f"diag {kind} {n}: orthonormality", U @ U.T, np.eye(n), 1e-13 * n)
        c.arr(f"diag {kind} {n}: eigenvalues", e, np.linalg.eigvalsh(H), 1e-13 * nrm)
        if np.any(np.diff(e) < -1e-14 * nrm):
            c.worst, c.what = np.inf, f"diag {kind} {n}: eigenvalues not ascending: {e}"
        V = [viol("diag", c.what, fl)] if c.what else []
        # composition: rotating with the eigenvectors gives the diagonal matrix
        w = rng.random()
        a2 = ["-q", "-l", "-o", "d.dat"] + (["-B"] if mode == "bin" else []) + ["vec", "h.dat", "vec"]
        r2 = tools.run("unitary", a2, d)
        D = tools.table(d + "/d.dat")
        if r2.rc != 0 or D is None or D.shape != (n, n):
            V.append(viol("unitary-failed", f"unitary {a2}: exit {r2.rc} {r2.err[-300:]}", tools.files_of(d)))
        else:
            c2 = tools.Cmp()
            c2.arr(f"unitary after diag {kind} {n}", D, np.diag(e), 2e-13 * nrm + 1e-14)
            if c2.what:
                V.append(viol("unitary-diag", c2.what, tools.files_of(d)))
        return case(f"diag/{i}", True, dict(matrices=1, eigenvectors=n), dict(tool="diag", kind=kind, n=n, mode=mode, scale=s), V)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def unitary(i):
    rng = ck.rng("unitary", i)
    d = common.scratch(ck.tmp, "u", i)
    try:
        n, m, p, q = [rng.choice([1, 2, rng.randint(1, 20)]) for _ in range(4)]
        g = lambda a, b: np.array([[rng.choice([0.0, rng.gauss(0, 1), 10 ** rng.uniform(-18, 1)]) for _ in range(b)] for _ in range(a)])
        A, B, C = g(n, m), g(m, p), g(p, q)
        # related factors: the same, transposed, or the same up to a few elements
        k = rng.random()
        if k < 0.35:
            rel = rng.choice(["same", "transposed"])
            if rel == "same":
                n = m = p = q = max(n, 2)
                A, B = g(n, n), g(n, n)
                C = A.copy()
            else:
                n, p, q = q, m, q
                A = g(q, m)
                B, C = g(m, m), A.T.copy()
                n, p = q, m
            for _ in range(rng.choice([0, 0, 1, 3])):
                C[rng.randrange(C.shape[0]), rng.randrange(C.shape[1])] = rng.gauss(0, 1)
            if rng.random() < 0.4:
                B = (B + B.T) / 2
            if rng.random() < 0.2:
                B = np.diag(np.diag(B))
        elif k < 0.45:
            X = rng.choice([A, B, C])
            X[:] = rng.choice([np.zeros(X.shape), np.ones(X.shape), np.eye(*X.shape), np.roll(np.eye(*X.shape), 1, 1)])
        t, l, bi = rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.3
        s = rng.choice([None, rng.uniform(-3, 3), 0.0])
        chop = rng.choice([None, 0.0, 1e-3, 10 ** rng.uniform(-16, 0)])
        for nm, M, tr in (("A", A, t), ("C", C, l)):
            M = M.T if tr else M
            if bi:
                with open(d + "/" + nm, "wb") as f:
                    f.write(struct.pack("II", *M.shape) + np.ascontiguousarray(M).tobytes())
            else:
                writemat(d + "/" + nm, M, rng)
                if rng.random() < 0.3:
                    x = open(d + "/" + nm).read()
                    open(d + "/" + nm, "w").write("# comment\n\n" + x.replace("\n", "\n\n", 1) + "\n")
        writemat(d + "/B", B, rng)
        args = (["-t"] if t else []) + (["-l"] if l else []) + (["-B"] if bi else []) + (["-s", repr(s)] if s is not None else []) + (["-c", repr(chop)] if chop is not None else []) + \
            (["-q"] if rng.random() < 0.5 else []) + ["-o", "out", "A", "B", "C"]
        fl = tools.files_of(d)
        r = tools.run("unitary", args, d)
        D = tools.table(d + "/out")
        if r.rc != 0 or D is None or D.shape != (n, q):
            return case(f"unitary/{i}", True, violations=[viol("unitary-failed", f"unitary {args} {A.shape} {B.shape} {C.shape}: exit {r.rc}, {None if D is None else D.shape} {r.err[-300:]}", fl)])
        L = np.longdouble
        k = 1.0 if s is None else s
        want = (k * (A.astype(L) @ B.astype(L) @ C.astype(L))).astype(float)
        tol = 1e-14 * (m + p) * abs(k) * (np.abs(A) @ np.abs(B) @ np.abs(C)) + 1e-300
        ch = 1e-14 if chop is None else chop
        small = np.abs(want) <= ch - tol
        edge = np.abs(np.abs(want) - ch) <= tol
        ok = edge & ((D == 0) | (np.abs(D - want) <= tol))
        w = np.where(small, 0.0, want)
        c = tools.Cmp()
        c.arr(f"unitary {args}", np.where(ok, w, D), w, np.where(small, 1e-300, tol))
        V = [viol("unitary", c.what, dict(fl, out=common.slurp(d + "/out")))] if c.what else []
        return case(f"unitary/{i}", True, dict(matrices=1, elements=n * q), dict(tool="unitary", args=args, dims=[n, m, p, q]), V)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def h5write(i):
    rng = ck.rng("h5write", i)
    d = common.scratch(ck.tmp, "h", i)
    try:
        want, log = {}, []
        first = True
        V = []
        for k in range(rng.randint(1, 5)):
            path = "/".join(rng.choice(["a", "b", "c1", "params", "x_y"]) for _ in range(rng.randint(1, 3))) + f"/d{k}"
            sca = rng.random() < 0.5
            tr = first or rng.random() < 0.15
            if tr:
                want = {}
            if sca:
                v = rng.choice([-1, 1]) * 10 ** rng.uniform(-10, 10)
                args = ["-s"] + (["-t"] if tr else []) + ["--", "f.h5", path, tools.num(rng, v)]
                want[path] = np.array(v)
            else:
                M = np.array([[rng.gauss(0, 1) for _ in range(rng.randint(1, 6))]] * 1)
                M = np.array([[rng.gauss(0, 1) for _ in range(M.shape[1])] for _ in range(rng.randint(1, 6))])
                writemat(d + f"/m{k}", M, rng)
                args = (["-t"] if tr else []) + ["f.h5", path, f"m{k}"]
                want[path] = M
            first = False
            log.append(args)
            r = tools.run("h5write", args, d)
            if r.rc != 0:
                V.append(viol("h5write-failed", f"h5write {args}: exit {r.rc} {r.err[-300:]}", tools.files_of(d)))
                break
        if not V:
            got = h5.read(d + "/f.h5")
            got = {k.strip("/"): v for k, v in got.items()}
            if set(got) != set(want):
                V.append(viol("h5write", f"h5write: datasets {sorted(got)}, expected {sorted(want)} after {log}", tools.files_of(d)))
            else:
                for k, w in want.items():
                    g = np.asarray(got[k], float)
                    if g.size != w.size or not np.array_equal(g.reshape(-1), w.reshape(-1)) or (w.ndim == 2 and g.shape != w.shape):
                        V.append(viol("h5write", f"h5write: {k} is {g.shape} {g.reshape(-1)[:4]}, expected {w.shape} {w.reshape(-1)[:4]}", tools.files_of(d)))
                        break
        return case(f"h5write/{i}", True, dict(datasets=len(want)), dict(tool="h5write", steps=log), V)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global ck
    ck = common.Check("T07", "exploration",
                      "random scripts (nested expressions, functions, parameters, coefficients, lists, matrices, several files, includes), random symmetric matrices up to 40x40 "
                      "(degenerate, badly scaled, sparse), random products; non-trivial = the printed numbers were compared with extended-precision arithmetic",
                      ["name=text without a blank after = is a string parameter and not an assignment", "integer literals below 2^31"])
    tools.need(["matrix", "diag", "unitary", "h5write"])
    ck.run(matrix, range(ck.n(1000, 30000)))
    ck.run(diag, range(ck.n(300, 6000)))
    ck.run(unitary, range(ck.n(300, 8000)))
    ck.run(h5write, range(ck.n(60, 1500)))
    ck.finish()


common.main(main)
