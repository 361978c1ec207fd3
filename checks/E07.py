"""E07: every eigensolver path returns a valid orthonormal eigensystem.
Monitors: (1) a driver around the real diagonalise() with every routine, every
work arrays allocated against inaccessible pages; (2) the HDF5 dump of real runs
of every symmetry type: H, its eigenvalues and the transformation matrices."""
import glob, math, os, re, shutil, struct, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common, build, cases, nrgrun, h5
import numpy as np
from vlib.common import case, viol

ck = common.Check("E07", "exploration",
                  "a case counts if eigenpairs returned by the real code were tested against the matrix they belong to (dimension at least 2)",
                  ["numpy's eigvalsh is used only to decide which part of the spectrum is the lowest in partial diagonalizations"])
BIN = NRG = None
REAL = ["default", "dsyev", "dsyevd", "dsyevr", "dsyevr"]
CPLX = ["default", "zheev", "zheevd", "zheevr", "zheevr"]
KINDS = ("goe diagonal-dominant degenerate identity blocks toeplitz wilkinson zero graded rank-one integer arrow kron scaled near-degenerate diagonal "
         "permutation pairs").split()


def herm(A):
    return (A + A.conj().T) / 2


def unitary(g, n, cplx):
    A = g.standard_normal((n, n)) + (1j * g.standard_normal((n, n)) if cplx else 0)
    return np.linalg.qr(A)[0]


def matrix(g, kind, n, cplx):
    rnd = lambda *s: g.standard_normal(s) + (1j * g.standard_normal(s) if cplx else 0)
    if kind == "goe":
        A = herm(rnd(n, n))
    elif kind == "diagonal-dominant":
        A = np.diag(np.sort(g.uniform(0, 10, n))) + 10.0 ** g.uniform(-14, -1) * herm(rnd(n, n))
    elif kind in ("degenerate", "near-degenerate", "pairs"):
        lev = g.choice([0.0, 1.0, 1.5, 4.0], n) if kind != "pairs" else np.concatenate([x := g.uniform(0, 3, n // 2), -x, [0.0] * (n % 2)])
        if kind == "near-degenerate":
            lev = lev + 10.0 ** g.uniform(-16, -6) * g.uniform(-1, 1, n)
        Q = unitary(g, n, cplx)
        A = herm((Q * lev) @ Q.conj().T)
    elif kind == "identity":
        A = np.eye(n) * g.uniform(-3, 3)
    elif kind == "blocks":
        k = max(1, n // int(g.integers(1, 5)))
        A = np.zeros((n, n), complex if cplx else float)
        b = herm(rnd(k, k))
        for i in range(0, n, k):
            s = min(k, n - i)
            A[i:i + s, i:i + s] = b[:s, :s] if g.random() < 0.7 else herm(rnd(s, s))
    elif kind == "toeplitz":
        t = rnd(1)[0]
        A = np.diag(np.full(n, g.uniform(-1, 1))) + (np.diag(np.full(n - 1, t), 1) + np.diag(np.full(n - 1, np.conj(t)), -1) if n > 1 else 0)
    elif kind == "wilkinson":
        A = np.diag(np.abs(np.arange(n) - (n - 1) / 2)) + (np.diag(np.ones(n - 1), 1) + np.diag(np.ones(n - 1), -1) if n > 1 else 0)
    elif kind == "zero":
        A = np.zeros((n, n))
    elif kind == "graded":
        s = 10.0 ** (-g.uniform(0, 12) * np.arange(n) / n)
        A = herm(rnd(n, n)) * np.outer(s, s)
    elif kind == "rank-one":
        v = rnd(n, 1)
        A = herm(v @ v.conj().T) * g.choice([-1, 1])
    elif kind == "integer":
        A = g.integers(-3, 4, (n, n)) + (1j * g.integers(-3, 4, (n, n)) if cplx else 0)
        A = np.triu(A, 1) + np.triu(A, 1).conj().T + np.diag(g.integers(-3, 4, n))
    elif kind == "arrow":
        A = np.diag(g.uniform(0, 2, n)) + 0 * (1j if cplx else 0)
        A[0, :] = rnd(n) * 0.1
        A[:, 0] = A[0, :].conj()
        A[0, 0] = 0.3
    elif kind == "kron":
        k = max(1, int(math.isqrt(n)))
        a, b = herm(rnd(k, k)), herm(rnd(k, k))
        B = np.kron(a, np.eye(k)) + np.kron(np.eye(k), b)
        A = np.zeros((n, n), B.dtype)
        A[:k * k, :k * k] = B
    elif kind == "scaled":
        A = herm(rnd(n, n)) * 10.0 ** g.choice([-200, -100, -20, -5, 5, 20, 100, 150])
    elif kind == "diagonal":
        A = np.diag(g.permutation(np.concatenate([g.uniform(-2, 2, n - n // 3), np.zeros(n // 3)])))
    else:
        p = g.permutation(n)
        A = np.zeros((n, n))
        A[np.arange(n), p] = 1
        A = A + A.T
    return np.array(A, dtype=complex if cplx else float)


def eigcheck(A, val, vec, need, exact=True):
    """list of (kind, text) for eigenpairs val, rows of vec (conjugated vectors in the engine's convention); A Hermitian"""
    n = len(A)
    V = []
    if len(val) != need:
        V.append(("number", f"{len(val)} eigenpairs returned, {need} requested"))
    if vec.shape != (len(val), n):
        return V + [("shape", f"eigenvector matrix is {vec.shape}, expected {(len(val), n)}")]
    if not (np.all(np.isfinite(val)) and np.all(np.isfinite(vec))):
        return V + [("finite", "eigenvalues or eigenvectors are not finite")]
    if np.any(np.diff(val) < 0):
        V.append(("ascending", f"eigenvalues are not ascending: {val[np.where(np.diff(val) < 0)[0][0]:][:2]}"))
    sc = np.abs(A).max() or 1.0
    B, w = A / sc, val / sc
    nrm = max(np.linalg.norm(B, 2), 1e-300) if n < 80 else np.linalg.norm(B)
    tol = 1e-13 * max(n, 20) * (50 if len(val) < n else 1)      # inverse iteration is less accurate
    res = np.abs(B @ vec.conj().T - vec.conj().T * w).max() if len(val) else 0.0      # conj(row) is the eigenvector
    if not res <= tol * nrm:
        V.append(("equation", f"residual of the eigenvalue equation is {res / nrm:.3e} of the norm"))
    o = np.abs(vec @ vec.conj().T - np.eye(len(val))).max() if len(val) else 0.0
    if not o <= tol * 10:
        V.append(("orthonormal", f"eigenvectors deviate from orthonormality by {o:.3e}"))
    if len(val) == n and n > 150:   # residual and orthonormality leave nothing else
        return V
    low = np.linalg.eigvalsh(B)[:len(val)]
    if not np.abs(np.sort(w) - low).max(initial=0) <= tol * nrm:
        V.append(("lowest", f"eigenvalues are not the lowest part of the spectrum: {np.abs(np.sort(w) - low).max():.3e} of the norm"))
    return V


def driver(i):
    rng = ck.rng("driver", i)
    g = np.random.default_rng(rng.randrange(1 << 60))
    jobs = []
    for j in range(40):
        cplx = rng.random() < 0.45
        n = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 12, 16, 17, 25, 30, 33, 50] + ([64, 65, 90, 130] if j < 3 else []))
        kind = rng.choice(KINDS)
        routine = rng.choice(CPLX if cplx else REAL)
        ratio = rng.choice([1.0, 1.0, 0.5, 0.1, 1e-3, 0.999999, rng.uniform(0.01, 0.99), rng.randrange(1, n + 1) / n])
        A = matrix(g, kind, n, cplx)
        jobs.append((cplx, n, kind, routine, ratio, rng.random() < 0.4, rng.choice(["", "", "#", "@A", "t"]), A))
    d = common.scratch(ck.tmp, "d", i)
    try:
        with open(d + "/in", "wb") as f:
            for cplx, n, kind, routine, ratio, sr, logs, A in jobs:
                f.write(struct.pack("<IIIId", int(cplx), n, int(sr), len(routine) | len(logs) << 8, ratio) + routine.encode() + logs.encode())
                f.write(np.ascontiguousarray(np.triu(A)).tobytes())
        try:
            p = subprocess.run([BIN, d + "/in", d + "/out"], capture_output=True, timeout=200)
        except subprocess.TimeoutExpired:
            return case(f"driver/{i}", False, inconclusive="driver timed out")
        out = open(d + "/out", "rb").read() if os.path.exists(d + "/out") else b""
        vs, res, pos = [], [], 0
        obs = dict(matrices=0, eigenpairs=0, partial=0, complex=0)
        for j, (cplx, n, kind, routine, ratio, sr, logs, A) in enumerate(jobs):
            desc = f"{routine} ratio={ratio:.6g} saveram={int(sr)} on {'complex' if cplx else 'real'} {kind} matrix of dimension {n}"
            files = {"matrix.txt": "\n".join(" ".join(repr(x) for x in r) for r in A.tolist()), "cmd": desc}
            if pos + 4 > len(out):
                vs.append(viol("crash", f"{desc}: driver ended with {p.returncode}: {p.stderr[-200:].decode(errors='replace')}", files))
                break
            rc, = struct.unpack_from("<i", out, pos)
            pos += 4
            if rc:
                obs["exceptions"] = obs.get("exceptions", 0) + 1
                L, = struct.unpack_from("<I", out, pos)
                what = out[pos + 4:pos + 4 + L].decode(errors="replace")
                pos += 4 + L
                if ratio != 1.0 and routine in ("dsyevr", "zheevr") and re.search(r"failed\. INFO=[1-9]", what) and obs["exceptions"] < 3:
                    continue        # LAPACK's inverse iteration gave up (about 1 in 10^5 degenerate matrices) and the engine says so
                vs.append(viol("exception", f"{desc}: {what}", files))
                continue
            M, r, c = struct.unpack_from("<III", out, pos)
            pos += 12
            val = np.frombuffer(out, np.float64, M, pos)
            pos += 8 * M
            vec = np.frombuffer(out, complex if cplx else float, r * c, pos).reshape(r, c)
            pos += r * c * (16 if cplx else 8)
            part = routine in ("dsyevr", "zheevr") and ratio != 1.0
            need = min(n, max(1, math.ceil(ratio * n))) if part else n
            for k, w in eigcheck(A, val, vec, need)[:2]:
                vs.append(viol(k, f"{desc}: {w}", files))
            obs["matrices"] += 1
            obs["eigenpairs"] += int(M)
            obs["partial"] += int(need < n)
            obs["complex"] += int(cplx)
            obs[f"routine {routine}"] = obs.get(f"routine {routine}", 0) + 1
            obs[f"kind {kind}"] = obs.get(f"kind {kind}", 0) + 1
        q = re.search(rb"guarded=(\d+)", p.stderr)
        obs["guarded work arrays"] = int(q.group(1)) if q else 0
        return case(f"driver/{i}", obs["matrices"] > 10, obs, dict(jobs=[(b, n_, k, r_, x) for b, n_, k, r_, x, *_ in jobs[:3]]), vs[:6])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def corpus():
    out = []
    for d in sorted(glob.glob(build.REPO + "/test/c++*/*") + glob.glob(build.REPO + "/test/complex/*") + glob.glob(build.REPO + "/test/test_long/legacy_qst*")):
        f = os.path.join(d, "data")
        if os.path.isfile(f) and os.path.isfile(os.path.join(d, "param")) and os.path.getsize(f) < 250000:
            t = open(os.path.join(d, "param")).read()
            if re.search(r"floquet|^\s*resume|project\s*=", t, re.M):
                continue
            sym = re.search(r"^\s*symtype\s*=\s*(\w+)", t, re.M)
            if sym:
                out.append((sym.group(1), open(f).read(60).startswith("# COMPLEX") or "complex" in d, d))
    return out


def dump(d, tag):
    """checks every step of a dump; (violations, observed)"""
    x = h5.read(os.path.join(d, "raw.h5"))
    V, obs = [], dict(subspaces=0, eigenpairs_in_runs=0)
    us = {}
    for q in x:
        p = q.split("/")
        if len(p) == 4 and p[1] == "U" and not q.endswith("-imag"):
            us.setdefault((p[0], p[2]), []).append(q)
    for k in sorted(x):
        m = re.match(r"(\d+)/hamiltonian/(.*)/matrix$", k)
        if not m:
            continue
        n, I = m.groups()
        im = x.get(k + "-imag")
        H = x[k] + (1j * im if im is not None else 0)
        H = np.triu(H) + np.triu(H, 1).conj().T
        val = x.get(f"{n}/eigen/{I}/value_orig")
        if val is None:
            V.append(("missing", f"step {n}: no eigenvalues for subspace {I} of dimension {len(H)}"))
            continue
        bl = []
        for q in us.get((n, I), []):
            bl.append((int(q.rsplit("nr=", 1)[1]), x[q] + (1j * x[q + "-imag"] if q + "-imag" in x else 0)))
        if not bl:
            V.append(("missing", f"step {n}: no transformation matrix for subspace {I}"))
            continue
        U = np.concatenate([b for _, b in sorted(bl, key=lambda t: t[0])], axis=1)
        for a, b in eigcheck(H, val, U, len(val)):
            V.append((a, f"step {n}, subspace {I}, dimension {len(H)}: {b}"))
        obs["subspaces"] += 1
        obs["eigenpairs_in_runs"] += len(val)
    return V, obs


def real_run(a):
    i, sym, cplx, src = a
    rng = ck.rng("run", i)
    name = os.path.relpath(src, build.REPO + "/test")
    d = common.scratch(ck.tmp, "r", i)
    try:
        for f in os.listdir(src):
            p = os.path.join(src, f)
            if os.path.isfile(p) and f != "DONE":
                shutil.copy(p, d)
        drop = r"^\s*(keep|keepenergy|keepmin|diag|diagratio|diag_mode|diagth|saveram|restart\w*|spec\w*|dmnrg\w*|fdm\w*|cfs\w*|finite\w*|done|h5\w*|Nmax|log|Tmin)\s*=.*$"
        t = re.sub(drop, "", open(d + "/param").read(), flags=re.M)
        par = dict(h5raw="true", h5all="true", h5ham="true", h5U="true", Nmax=rng.choice([3, 4]), keep=rng.choice([40, 80, 150]), diag=rng.choice(CPLX if cplx else REAL),
                   saveram=rng.choice(["true", "false"]))
        if par["diag"] in ("dsyevr", "zheevr") and rng.random() < 0.6:
            par.update(diagratio=rng.uniform(0.1, 0.9))
        if rng.random() < 0.4:
            par.update(diag_mode="OpenMP", diagth=rng.choice([1, 2, 5]))
        t = re.sub(r"^\[param\]\s*$", "[param]\n" + "".join(f"{k}={v}\n" for k, v in par.items()), t, count=1, flags=re.M)
        open(d + "/param", "w").write(t)
        r = nrgrun.run([NRG], d, timeout=60)
        sample = dict(corpus=name, sym=sym, **{k: par[k] for k in ("diag", "keep", "Nmax")})
        if r.timeout or r.rc != 0:
            return case(f"run/{name}/{i}", False, dict(corpus_not_runnable=1), dict(sample, err=r.err[-200:] + r.out[-200:]))
        v, obs = dump(d, name)
        files = cases.case_files(d)
        obs[f"subspaces {sym}"] = obs["subspaces"]
        return case(f"run/{name}/{i}", obs["eigenpairs_in_runs"] > 50, obs, sample, [viol(k, f"{name} ({sym}, {par['diag']}): {w}", files) for k, w in v[:3]])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global BIN, NRG
    BIN = build.harness("diag.cc")
    ck.run(driver, range(ck.n(60, 2500)))
    NRG = build.engine("main")
    by = {}
    for s, c, d in corpus():
        by.setdefault((s, c), []).append(d)
    rng = ck.rng("pick")
    pick = []
    for s in sorted(by):
        rng.shuffle(by[s])
        pick += [(s[0], s[1], d) for d in by[s][:ck.n(2, 40)]]
    ck.run(real_run, [(i, s, c, d) for i, (s, c, d) in enumerate(pick)])
    ck.extra["symmetry_types"] = sorted({s for s, _ in by})
    ck.finish()


common.main(main)
