"""T03: averaging tools (binavg, intavg, tdavg). Monitor: the files they write for
random sets of runs, against the definition (weighted unions of delta peaks;
means of linear interpolants on the merged mesh, minus the reference)."""
import os, sys, math, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common, tools
import numpy as np
from vlib.common import case, viol

ck = None


def binavg(i):
    rng = ck.rng("binavg", i)
    d = common.scratch(ck.tmp, "b", i)
    try:
        Nz = rng.choice([1, 2, 3, 4, 7, 11, 16])
        two = rng.choice([0, 0, 2, 3])
        one = rng.random() < 0.3
        ncol = 2 if two else 1
        col = 2 if two == 3 else 1
        name = rng.choice(["spec.dat", "spec_FDM_dens_A_d-A_d.bin", "x"])
        common_f = [rng.choice([-1, 1]) * 10 ** rng.uniform(-12, 2) for _ in range(rng.randint(0, 30))]
        data = []
        for z in range(Nz):
            n = rng.choice([0, 1, 2, 50, 300, 1000]) if rng.random() < 0.5 else rng.randint(1, 200)
            r = []
            for _ in range(n):
                f = rng.choice(common_f) if common_f and rng.random() < 0.4 else rng.choice([-1, 1]) * 10 ** rng.uniform(-15, 3)
                if rng.random() < 0.03:
                    f = rng.choice([0.0, -0.0, 5e-324, 1e300])
                r.append([f] + [rng.uniform(-1, 1) * 10 ** rng.uniform(-8, 2) for _ in range(ncol)])
            # frequencies that almost coincide, within a run and between runs
            for q in r:
                if rng.random() < 0.15 and r:
                    near = rng.choice(rng.choice(data) or r if data else r)[0]
                    q[0] = float(near * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-16, -2)))
            if rng.random() < 0.3:
                r.sort(reverse=rng.random() < 0.3)
            data.append(r)
        outs = []
        for perm in range(2):
            order = list(range(Nz))
            if perm:
                rng.shuffle(order)
            w = os.path.join(d, f"p{perm}")
            os.makedirs(w)
            for k, z in enumerate(order):
                if one and Nz == 1:
                    p = w
                else:
                    p = os.path.join(w, str(k + 1))
                    os.makedirs(p)
                np.array(data[z], dtype=np.float64).reshape(-1, 1 + ncol).tofile(os.path.join(p, name))
            args = (["-v"] if rng.random() < 0.3 else []) + (["-o"] if one else []) + ([f"-{two}"] if two else []) + [name, Nz]
            r = tools.run("binavg", args, w)
            of = os.path.join(w, "spec.bin" if one else name)
            if r.rc != 0 or not os.path.exists(of):
                return case(f"binavg/{i}", True, violations=[viol("failed", f"binavg {args} exit {r.rc}: {r.err[-300:]}", {})])
            outs.append(np.fromfile(of).reshape(-1, 2))
        ref = {}
        for r in data:
            for x in r:
                ref.setdefault(x[0] + 0.0, []).append(x[col])
        fr = np.array(sorted(ref))
        wt = np.array([math.fsum(ref[f]) / Nz for f in fr])
        ab = np.array([sum(abs(q) for q in ref[f]) / Nz for f in fr])
        c = tools.Cmp()
        for k, o in enumerate(outs):
            c.arr(f"frequencies (order {k})", o[:, 0], fr, 0.0 * fr)
            c.arr(f"weights (order {k})", o[:, 1], wt, 1e-13 * ab + 1e-300)
        V = []
        if c.what:
            fl = {}
            for z, r in enumerate(data[:8]):
                fl[f"input_{z + 1}.txt"] = "\n".join(" ".join(map(repr, q)) for q in r)
            V.append(viol("binavg", f"Nz={Nz} option -{two or ''} {c.what}", fl))
        return case(f"binavg/{i}", sum(map(len, data)) > 0, dict(peaks=sum(map(len, data)), values_compared=c.n, runs=2), dict(tool="binavg", Nz=Nz, column=two, rows=[len(r) for r in data]), V)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def interp(x, X, Y):
    return np.interp(x, X, Y)


def meshes(rng, Nz):
    kind = rng.choice(["log", "lin", "zshift", "pm", "random"])
    out = []
    base = None
    for z in range(Nz):
        n = rng.randint(2, 80)
        if kind == "log":
            m = np.exp(np.sort(np.array([rng.uniform(-20, 3) for _ in range(n)])))
        elif kind == "lin":
            m = np.linspace(rng.uniform(-2, 0), rng.uniform(0.5, 3), n)
        elif kind == "zshift":
            m = np.array([2.0 ** (-k / 2 - z / Nz / 2) for k in range(n)])[::-1]
        elif kind == "pm":
            p = 10 ** np.sort(np.array([rng.uniform(-8, 1) for _ in range(max(n // 2, 1))]))
            m = np.concatenate([-p[::-1], [0.0] if rng.random() < 0.5 else [], p])
        else:
            m = np.sort(np.array([rng.uniform(-5, 5) for _ in range(n)]))
        if base is not None and rng.random() < 0.5:
            # share points exactly or almost exactly with the first mesh
            k = rng.sample(range(len(base)), min(len(base), rng.randint(1, 10)))
            s = base[k] * np.array([rng.choice([1.0, 1 + 1e-8, 1 - 3e-8, 1 + 1e-13]) for _ in k])
            m = np.concatenate([m, s])
        m = np.unique(m)
        # distinct points of one mesh are well separated
        keep = [0]
        for j in range(1, len(m)):
            if abs(m[j] - m[keep[-1]]) > 3e-5 * max(abs(m[j]), abs(m[keep[-1]])):
                keep.append(j)
        m = m[keep]
        if len(m) < 2:
            m = np.array([0.5, 1.5])
        if base is None:
            base = m
        out.append(m)
    return kind, out


def check_mesh(c, got, allx, what):
    """the merged mesh: ascending, made of input points, and covering all of them"""
    if len(got) == 0:
        c(what + ": empty output", 0, 1, 0)
        return
    c(what + ": ascending", float(np.all(np.diff(got) >= 0)), 1.0, 0)
    idx = np.clip(np.searchsorted(allx, got), 0, len(allx) - 1)
    lo = np.clip(idx - 1, 0, len(allx) - 1)
    near = np.minimum(np.abs(allx[idx] - got), np.abs(allx[lo] - got))
    c.arr(what + ": points not in any input", near, 0 * near, 1e-14 * np.abs(got) + 1e-300)
    idx = np.clip(np.searchsorted(got, allx), 0, len(got) - 1)
    lo = np.clip(idx - 1, 0, len(got) - 1)
    near = np.minimum(np.abs(got[idx] - allx), np.abs(got[lo] - allx))
    c.arr(what + ": missing points", near, 0 * near, 1.1e-6 * np.abs(allx) + 1e-300)


def mean_tol(x, X, Y):
    """rounding allowance of the linear interpolation at x (the printed x has 16 digits)"""
    s = np.max(np.abs(Y))
    k = np.clip(np.searchsorted(X, x), 1, len(X) - 1)
    sl = np.abs((Y[k] - Y[k - 1]) / (X[k] - X[k - 1]))
    k2 = np.clip(k + 1, 1, len(X) - 1)
    sl = np.maximum(sl, np.abs((Y[k2] - Y[k2 - 1]) / (X[k2] - X[k2 - 1])))
    return 1e-14 * s + sl * np.abs(x) * 4e-16 + 1e-300


def intavg(i):
    rng = ck.rng("intavg", i)
    d = common.scratch(ck.tmp, "i", i)
    try:
        Nz = rng.choice([1, 2, 3, 4, 8, 12])
        kind, M = meshes(rng, Nz)
        Y = [np.array([rng.uniform(-2, 2) * 10 ** rng.uniform(-3, 3) for _ in m]) for m in M]
        name = rng.choice(["spec.dat", "y"])
        outs = []
        for perm in range(2):
            order = list(range(Nz))
            if perm:
                rng.shuffle(order)
            w = os.path.join(d, f"p{perm}")
            for k, z in enumerate(order):
                os.makedirs(os.path.join(w, str(k + 1)))
                tools.write(os.path.join(w, str(k + 1), name), list(zip(M[z], Y[z])), rng=rng, comments=True)
            r = tools.run("intavg", (["-v"] if rng.random() < 0.3 else []) + [name, Nz], w)
            o = tools.table(os.path.join(w, name))
            if r.rc != 0 or o is None or o.shape[1:] != (2,):
                return case(f"intavg/{i}", True, violations=[viol("failed", f"intavg exit {r.rc}, output {None if o is None else o.shape}: {r.err[-300:]}", tools.files_of(w))])
            outs.append(o)
        allx = np.sort(np.concatenate(M))
        c = tools.Cmp()
        for k, o in enumerate(outs):
            x = o[:, 0]
            check_mesh(c, x, allx, f"mesh (order {k})")
            want = sum(interp(x, m, y) for m, y in zip(M, Y)) / Nz
            tol = sum(mean_tol(x, m, y) for m, y in zip(M, Y)) / Nz + 4e-16 * np.abs(want)
            c.arr(f"average (order {k})", o[:, 1], want, tol * 3)
        V = [viol("intavg", f"{kind} meshes, Nz={Nz}: {c.what}", tools.files_of(d))] if c.what else []
        return case(f"intavg/{i}", len(outs[0]) > 0, dict(points=len(outs[0]), values_compared=c.n, runs=2), dict(tool="intavg", Nz=Nz, mesh=kind, rows=[len(m) for m in M]), V)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tdavg(i):
    rng = ck.rng("tdavg", i)
    d = common.scratch(ck.tmp, "t", i)
    try:
        Nz = rng.choice([1, 2, 3, 4, 8])
        ncol = rng.choice([1, 2, 5, 10])
        ref = rng.random() < 0.6
        def mk():
            kind, M = meshes(rng, Nz)
            return M, [np.array([[rng.uniform(-2, 2) * 10 ** rng.uniform(-3, 2) for _ in range(ncol)] for _ in m]) for m in M]
        A = mk()
        B = mk() if ref else None
        style = rng.choice(["default", "one", "two"])
        name = "td.dat" if style == "default" else rng.choice(["x.dat", "td", "run/td.dat"])
        rname = "td-ref.dat" if style != "two" else "myref"
        cc = rng.random() < 0.4
        outs = []
        for perm in range(2):
            order = list(range(Nz))
            if perm:
                rng.shuffle(order)
            w = os.path.join(d, f"p{perm}")
            os.makedirs(w + "/run")
            def put(fn, D, order):
                L = []
                for k, z in enumerate(order):
                    if k or rng.random() < 0.8:
                        L += ["# T a b c"] * rng.choice([1, 1, 2])
                    rows = list(range(len(D[0][z])))
                    st = rng.choice(["asc", "desc", "shuffle"])
                    if st == "desc":
                        rows = rows[::-1]
                    elif st == "shuffle":
                        rng.shuffle(rows)
                    for j in rows:
                        L.append(rng.choice(["", " "]) + " ".join(tools.num(rng, float(x)) for x in [D[0][z][j]] + list(D[1][z][j])))
                open(os.path.join(w, fn), "w").write("\n".join(L) + "\n")
            put(name, A, order)
            if ref:
                ro = order if rng.random() < 0.5 else rng.sample(range(Nz), Nz)
                put(rname, B, ro)
            args = (["-c"] if cc else []) + (["-v"] if rng.random() < 0.2 else []) + ([] if style == "default" else [name] + ([rname] if ref and style == "two" else []))
            r = tools.run("tdavg", args, w)
            of = os.path.join(w, "td-avg.dat" if name == "td.dat" else name + ".avg.dat")
            o = tools.table(of)
            if r.rc != 0 or o is None or o.shape[1:] != (ncol + 1,):
                return case(f"tdavg/{i}", True, violations=[viol("failed", f"tdavg {args} exit {r.rc}, output {None if o is None else o.shape}: {r.err[-300:]}", tools.files_of(w))])
            outs.append(o)
        allx = np.sort(np.concatenate(A[0]))
        c = tools.Cmp()
        for k, o in enumerate(outs):
            x = o[:, 0]
            check_mesh(c, x, allx, f"mesh (order {k})")
            for q in range(ncol):
                want, tol = 0, 1e-300
                for s, D in ((1, A), (-1, B)):
                    if D is None:
                        continue
                    for m, y in zip(*D):
                        y = y[:, q]
                        want = want + s * interp(x, m, y) / Nz
                        tol = tol + mean_tol(x, m, y) / Nz
                c.arr(f"column {q + 2} (order {k})", o[:, q + 1], want, 3 * tol)
        V = [viol("tdavg", f"Nz={Nz} columns={ncol} reference={ref}: {c.what}", tools.files_of(d))] if c.what else []
        return case(f"tdavg/{i}", len(outs[0]) > 0, dict(points=len(outs[0]) * ncol, values_compared=c.n, runs=2, with_reference=int(ref)),
                    dict(tool="tdavg", Nz=Nz, columns=ncol, reference=ref, rows=[len(m) for m in A[0]]), V)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global ck
    ck = common.Check("T03", "exploration",
                      "random sets of runs (1 to 16; coinciding, nearly coinciding, signed, unsorted meshes; empty files; several columns; references), each "
                      "averaged twice with the runs in different order; non-trivial = output rows were compared with the mean of the inputs",
                      ["input meshes are strictly monotone, points closer than 1e-6 (relative) may be merged"])
    tools.need(["binavg", "intavg", "tdavg"])
    n = ck.n(500, 12000)
    ck.run(binavg, range(n))
    ck.run(intavg, range(n))
    ck.run(tdavg, range(n))
    ck.finish()


common.main(main)
