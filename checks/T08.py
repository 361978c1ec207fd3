"""T08: the tools fail closed.

All tools are built with AddressSanitizer, UBSan and hardened standard-library
assertions.  Monitors: sanitizer reports, fatal signals, termination, and (for
input that is damaged in a known way) the exit status and the message; a
companion run on the undamaged input shows that the case is one the tool
accepts.
"""
import math, os, random, shutil, struct, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common, tools, build, h5
from vlib.common import case, viol
import numpy as np

ck = common.Check("T08", "exploration",
                  "a case counts if the sanitizer-instrumented tool was executed on damaged or fuzzed input and ended with a status the monitors could judge",
                  ["damage that leaves a well-formed shorter input (a cut exactly between two rows) cannot be recognized by any reader and is not required to be",
                   "termination is judged by a limit 100 times the time of ordinary runs"])
V = "rel"        # -DNDEBUG as in the default build type: nothing may depend on assertions
NAMES = [t for t in build.TOOLS]


class In:
    """required input file of a tool: kind text or bin, columns"""

    def __init__(self, path, kind, cols, rows):
        self.path, self.kind, self.cols, self.rows = path, kind, cols, rows

    def bytes(self):
        if self.kind == "bin":
            return np.array(self.rows, dtype=np.float64).tobytes()
        if self.kind == "raw":
            return self.rows if isinstance(self.rows, bytes) else self.rows.encode()
        return ("\n".join(" ".join(repr(float(x)) for x in r) for r in self.rows) + "\n").encode()


def peaks(rng, cols=2):
    n = rng.randrange(3, 40)
    return [[rng.choice([-1, 1]) * 10 ** rng.uniform(-6, 0.5)] + [rng.uniform(0, 1) for _ in range(cols - 1)] for _ in range(n)]


def curve(rng, n=None, lo=-1.0, hi=1.0, cols=2):
    n = n or rng.randrange(8, 40)
    xs = sorted(rng.uniform(lo, hi) for _ in range(n))
    return [[x] + [rng.uniform(0, 1) for _ in range(cols - 1)] for x in xs]


def symcurve(rng):
    n = rng.randrange(6, 30)
    xs = sorted(10 ** rng.uniform(-3, 0) for _ in range(n))
    return [[-x, rng.uniform(0, 1)] for x in reversed(xs)] + [[x, rng.uniform(0, 1)] for x in xs]


def mat(rng, n, m=None, sym=False):
    m = m or n
    a = [[rng.uniform(-1, 1) for _ in range(m)] for _ in range(n)]
    if sym:
        for i in range(n):
            for j in range(i):
                a[i][j] = a[j][i]
    return a


def matbin(a):
    return struct.pack("<II", len(a), len(a[0])) + np.array(a).tobytes()


PARAM = "[param]\nLambda=2.0\nz=0.7\nNmax=10\nmMAX=25\nxmax=6\noutputstep=0.125\ndx_fine=1e-4\ndx_fast=1e-3\nmax_subdiv=10\n"


def g_binavg(rng):
    nz = rng.randrange(1, 4)
    o = rng.choice([[], ["-2"]])
    return o + ["s.bin", nz], [In(f"{i}/s.bin", "bin", 3 if o else 2, peaks(rng, 3 if o else 2)) for i in range(1, nz + 1)]


def g_intavg(rng):
    nz = rng.randrange(1, 4)
    return ["s.dat", nz], [In(f"{i}/s.dat", "text", 2, curve(rng)) for i in range(1, nz + 1)]


def g_tdavg(rng):
    c = rng.randrange(2, 5)
    ts = [10 ** -(i / 4) for i in range(rng.randrange(4, 14))]
    return ["td", "ref"], [In("td", "text", c, [[t] + [rng.uniform(0, 1) for _ in range(c - 1)] for t in ts]),
                           In("ref", "text", c, [[t] + [rng.uniform(0, 1) for _ in range(c - 1)] for t in ts])]


def g_broaden(rng):
    nz = rng.randrange(1, 3)
    o = rng.choice([[], ["-2"], ["-m", "1e-5", "-M", "3"], ["-c"], ["-s"], ["-S"], ["-n"], ["-P"]])
    ins = []
    if rng.random() < 0.3:
        o = o + ["-L", "mesh"]
        ins.append(In("mesh", "text", 2, [[x, 0.0] for x in sorted(rng.uniform(-2, 2) for _ in range(12))]))
    c = 3 if "-2" in o else 2
    return o + ["s.bin", nz, repr(rng.uniform(0.1, 0.8)), rng.choice(["0.01", "1e-6"])] + rng.choice([[], ["0.001"]]), \
        ins + [In(f"{i}/s.bin", "bin", c, peaks(rng, c)) for i in range(1, nz + 1)]


def g_bw(rng):
    nz = rng.randrange(1, 3)
    o = rng.choice([[], ["-m", "1e-3", "-M", "3", "-r", "1.2"], ["-p"], ["-s"]]) + ["-n", "1"]
    return o + ["s.bin", "0.4", nz], [In(f"{i}/s.bin", "bin", 2, peaks(rng)[:12]) for i in range(1, nz + 1)]


def g_kk(rng):
    f = In("in.dat", "text", 2, symcurve(rng))
    if rng.random() < 0.3:
        f.stdin = True
        return ["-"], [f]
    return ["in.dat", "out.dat"], [f]


def g_integ(rng):
    return rng.choice([[], ["-p"], ["-n"], ["-a"], ["-f", "-T", "0.1"]]) + ["f.dat"], [In("f.dat", "text", 2, curve(rng))]


def g_hilb(rng):
    o, ins = [], []
    if rng.random() < 0.4:
        o = ["-d", "dos.dat"]
        ins.append(In("dos.dat", "text", 2, symcurve(rng)))
    k = rng.randrange(3)
    if k == 0 and o:
        return o + ["0.2", "0.1"], ins
    if k == 1:
        g = rng.choice([[], ["-G"]])
        ins.append(In("pts.dat", "text", 3, [[i, rng.uniform(-2, 2), rng.uniform(0.01, 1)] for i in range(6)]))
        return g + o + ["pts.dat"], ins
    w = sorted(rng.uniform(-2, 2) for _ in range(6))
    ins += [In("rs.dat", "text", 2, [[x, rng.uniform(-1, 1)] for x in w]), In("is.dat", "text", 2, [[x, -rng.uniform(0.01, 1)] for x in w])]
    return o + ["rs.dat", "is.dat", "ro.dat", "io.dat"], ins


def g_mats(rng):
    nz = rng.randrange(1, 3)
    o = rng.choice([[], ["-2"], ["-3"]])
    c = 3 if o else 2
    return o + ["s.bin", nz, "0.01", rng.randrange(1, 20)], [In(f"{i}/s.bin", "bin", c, peaks(rng, c)) for i in range(1, nz + 1)]


def g_specmoments(rng):
    nz = rng.randrange(1, 3)
    return rng.choice([[], ["-n"], ["-p"], ["-c"]]) + ["s.bin", nz], [In(f"{i}/s.bin", "bin", 2, peaks(rng)) for i in range(1, nz + 1)]


def g_resample(rng):
    return ["-e", "in.dat", "grid.dat", "out.dat"], [In("in.dat", "text", 2, curve(rng)), In("grid.dat", "text", 2, curve(rng))]


def g_matrix(rng):
    nch = rng.randrange(1, 3)
    par = "[extra]\nU=0.3\neps=-0.1\n\n[param]\nNmax=4\n"
    return ["param", "exp"], [In("param", "raw", 0, par), In("exp", "raw", 0, "# matrix\nU+eps*2 sqrt(2)\n1.5e-3 -eps\n1/U 0\n")]


def g_diag(rng):
    n = rng.randrange(2, 7)
    return ["-o", "val", "-O", "vec", "m.dat"], [In("m.dat", "text", n, mat(rng, n, sym=True))]


def g_unitary(rng):
    a, b, c, e = (rng.randrange(2, 5) for _ in range(4))
    if rng.random() < 0.4:
        return ["-B", "-o", "out", "A", "B", "C"], [In("A", "raw", b, matbin(mat(rng, a, b))), In("B", "text", c, mat(rng, b, c)), In("C", "raw", e, matbin(mat(rng, c, e)))]
    return ["-o", "out", "A", "B", "C"], [In("A", "text", b, mat(rng, a, b)), In("B", "text", c, mat(rng, b, c)), In("C", "text", e, mat(rng, c, e))]


def g_h5write(rng):
    n, m = rng.randrange(2, 5), rng.randrange(2, 5)
    return ["f.h5", "/g/m", "m.dat"], [In("m.dat", "text", m, mat(rng, n, m))]


def g_adapt(rng):
    rows = [[s * x, rng.uniform(0.2, 1)] for s in (1, -1) for x in (1e-3, 0.05, 0.3, 1.0)]
    return rng.choice([["P"], ["N"]]), [In("param", "raw", 0, PARAM), In("Delta.dat", "text", 2, rows)]


def g_nrgchain(rng):
    rows = [[s * x, rng.uniform(0.2, 1)] for s in (1, -1) for x in (1e-3, 0.05, 0.3, 1.0)]
    f = [[1 + 0.25 * k, 0.7] for k in range(120)]
    return [], [In("param", "raw", 0, PARAM), In("Delta.dat", "text", 2, rows), In("FSOL.dat", "text", 2, f), In("FSOLNEG.dat", "text", 2, f)]


GEN = {n[2:]: f for n, f in globals().items() if n.startswith("g_")}


def setup(d, ins, skip=None):
    for k, f in enumerate(ins):
        p = os.path.join(d, f.path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if k != skip and not getattr(f, "stdin", False):
            open(p, "wb").write(f.bytes())


def execute(name, args, d, ins, data=None, timeout=60):
    sin = b""
    for k, f in enumerate(ins):
        if getattr(f, "stdin", False):
            sin = data.get(k, f.bytes()) if data else f.bytes()
    return tools.run(name, args, d, variant=V, timeout=timeout, stdin=sin,
                     env={"ASAN_OPTIONS": tools.SAN["ASAN_OPTIONS"] + ":hard_rss_limit_mb=3000:max_allocation_size_mb=3000"})


def memory(r):
    """memory error, undefined behaviour or crash"""
    e = r.err
    if "hard rss limit" in e or "out-of-memory" in e or "allocation-size-too-big" in e or "requested allocation size" in e or "bad_alloc" in e:
        return None
    if "ERROR: AddressSanitizer" in e and "ABRT" not in e.split("ERROR: AddressSanitizer")[1][:60]:
        return "AddressSanitizer: " + e.split("ERROR: AddressSanitizer:")[1][:160].replace("\n", " ")
    if "runtime error:" in e:
        i = e.index("runtime error:")
        return "UBSan: " + e[max(0, i - 80):i + 160].replace("\n", " ")
    if r.rc in (98, 99):
        return f"sanitizer exit {r.rc}: {e[-200:]}"
    if r.rc < 0 and -r.rc not in (6, 9):
        return f"killed by signal {-r.rc}"
    if "_GLIBCXX_ASSERTIONS" in e or "__n < this->size()" in e or "/bits/stl_" in e and "Assertion" in e:
        return "out-of-bounds access of a standard container: " + e[-200:]
    return None


def clean(d):
    for root, _, fs in os.walk(d):
        for f in fs:
            yield os.path.join(root, f)


NUMBAD = ["abc", "1.0x", "0..5", "nan", "--1", "1e", "0,5", "x1", "$"]


def damage(rng, f):
    """(kind, bytes or None for missing / 'dir')"""
    L = f.bytes()
    if f.kind == "text":
        k = rng.choice(["missing", "empty", "directory", "comment only", "cut row", "bad token", "bad token", "bad token", "first row short", "middle row short", "binary junk", "blank"])
    elif f.kind == "bin":
        k = rng.choice(["missing", "directory", "cut record", "cut record", "cut record"])
    else:
        # an empty parameter file is one that leaves all the defaults
        k = rng.choice(["missing", "directory"] + (["empty", "cut"] if f.path in "ABC" else []))
    if k == "missing":
        return k, None
    if k == "directory":
        return k, "dir"
    if k == "empty":
        return k, b""
    if k == "blank":
        return k, b"\n \n"
    if k == "comment only":
        return k, b"# a comment 1 2\n"
    if k == "binary junk":
        return k, bytes(rng.randrange(128, 256) for _ in range(200))
    if k == "cut record":
        n = 8 * f.cols
        m = rng.randrange(0, len(f.rows)) * n + rng.randrange(1, n)
        return k, L[:m]
    if k == "cut":
        return k, L[:rng.choice([rng.randrange(1, 8), rng.randrange(8, len(L))])]
    rows = [[repr(float(x)) for x in r] for r in f.rows]
    j = {"first row short": 0, "cut row": len(rows) - 1}.get(k, rng.choice([0, len(rows) - 1, rng.randrange(len(rows))]))
    if k == "middle row short":
        j = rng.randrange(max(1, len(rows) - 1))
    if k == "bad token":
        c = rng.randrange(f.cols)
        t = rng.choice(NUMBAD)
        if f.path in ("td", "ref") and t == "nan" and c:    # undefined values are passed on as such
            t = "x1"
        rows[j][c] = t
        return f"bad token {t!r} in row {j + 1} column {c + 1}", ("\n".join(" ".join(r) for r in rows) + "\n").encode()
    rows[j] = rows[j][:rng.randrange(1, f.cols)] if f.cols > 1 else []
    if k == "cut row":
        return k, ("\n".join(" ".join(r) for r in rows) + rng.choice(["", " ", "\n"])).encode()
    return k, ("\n".join(" ".join(r) for r in rows) + "\n").encode()


def damaged(a):
    name, i = a
    rng = ck.rng("damage", name, i)
    d = common.scratch(ck.tmp, "d", name, i)
    try:
        args, ins = GEN[name](rng)
        k = rng.randrange(len(ins))
        f = ins[k]
        what, data = damage(rng, f)
        # mesh files of broaden: only the first column is used
        base = os.path.join(d, "0")
        os.mkdir(base)
        setup(base, ins)
        ref = execute(name, args, base, ins)
        w = os.path.join(d, "1")
        os.mkdir(w)
        setup(w, ins, skip=k)
        stdin = getattr(f, "stdin", False)
        if data == "dir":
            if stdin:
                data = b""
                what = "empty"
            else:
                os.makedirs(os.path.join(w, f.path))
        if isinstance(data, bytes) and not stdin:
            open(os.path.join(w, f.path), "wb").write(data)
        if data is None and stdin:
            data, what = b"", "empty"
        r = execute(name, args, w, ins, {k: data} if stdin else None)
        vs = []
        cmd = f"{name} {' '.join(map(str, args))}"
        files = dict(tools.files_of(w), stdout=r.out[-3000:], stderr=r.err[-3000:], cmd=cmd)
        if ref.timeout or r.timeout:
            return case(f"{name}/damage/{i}", False, inconclusive="timed out")
        m = memory(r) or memory(ref)
        if m:
            vs.append(viol(f"memory-{name}", f"{cmd} with {f.path} {what}: {m}", files))
        elif ref.rc != 0:
            return case(f"{name}/damage/{i}", True, {"executions": 2, "undamaged rejected": 1}, dict(cmd=cmd, damage=f"{f.path}: {what}", rc=r.rc))
        elif r.rc == 0:
            vs.append(viol(f"success-{name}", f"{cmd} with {f.path} {what}: exit status 0", files))
        elif not (r.err.strip() or r.out.strip()):
            vs.append(viol(f"silent-{name}", f"{cmd} with {f.path} {what}: exit status {r.rc} without any message", files))
        return case(f"{name}/damage/{i}", True, {"executions": 2, "damaged": 1, "damage: " + what.split(" '")[0].split(' "')[0]: 1}, dict(cmd=cmd, damage=f"{f.path}: {what}", rc=r.rc), vs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def content(p):
    if p.endswith(".h5"):       # the files carry time stamps
        try:
            return repr(h5.read(p))
        except OSError:
            return b"unreadable"
    return common.slurp(p, 1 << 22)


def comments(a):
    """comment lines between the rows: either rejected or ignored, never the end of the data"""
    name, i = a
    rng = ck.rng("comment", name, i)
    d = common.scratch(ck.tmp, "c", name, i)
    try:
        args, ins = GEN[name](rng)
        tx = [k for k, f in enumerate(ins) if f.kind == "text"]
        if not tx:
            return None
        k = rng.choice(tx)
        f = ins[k]
        L = f.bytes().decode().splitlines()
        j = rng.randrange(1, len(L))
        L.insert(j, rng.choice(["# comment", "#", "# 1 2"]))
        data = ("\n".join(L) + "\n").encode()
        outs = []
        for q in (0, 1):
            w = os.path.join(d, str(q))
            os.mkdir(w)
            setup(w, ins)
            before = set(clean(w))
            st = getattr(f, "stdin", False)
            if q and not st:
                open(os.path.join(w, f.path), "wb").write(data)
            r = execute(name, args, w, ins, {k: data} if q and st else None)
            new = {os.path.relpath(p, w): content(p) for p in sorted(set(clean(w)) - before)}
            if name == "tdavg":
                new = {n: b"\n".join(l for l in b.splitlines() if not l.startswith(b"#")) for n, b in new.items()}
            outs.append((r, new))
        r, new = outs[1]
        vs = []
        cmd = f"{name} {' '.join(map(str, args))}"
        files = dict(tools.files_of(d), cmd=cmd)
        if outs[0][0].timeout or r.timeout:
            return case(f"{name}/comment/{i}", False, inconclusive="timed out")
        m = memory(r)
        if m:
            vs.append(viol(f"memory-{name}", f"{cmd} with a comment line in {f.path}: {m}", files))
        elif outs[0][0].rc == 0 and r.rc == 0 and name != "tdavg":      # in tdavg comments separate blocks
            strip = lambda t: [l for l in t.splitlines() if "Elapsed" not in l and "lines read" not in l]
            if new != outs[0][1] or strip(r.out) != strip(outs[0][0].out):
                vs.append(viol(f"comment-{name}", f"{cmd}: a comment line after row {j} of {f.path} changes the result silently", files))
        return case(f"{name}/comment/{i}", True, {"executions": 2, "comment lines": 1, "comment rejected": int(r.rc != 0)}, dict(cmd=cmd, rc=r.rc), vs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


VAL = ["0", "-1", "1", "1e-320", "1e308", "-1e308", "inf", "-inf", "nan", "", "abc", "2147483648", "-2147483649", "1e99", "0x10", "9999999999999999999", "1e-30", "3.5"]
OPTS = {"binavg": "hvo23", "intavg": "hvV", "tdavg": "hvVc", "broaden": "vm:M:r:o23nscgf:x:a:l:h:PNABL:", "bw": "hvVm:M:r:n:t:pq:sSx:d:o", "kk": "h", "integ": "hvVwt:T:pnaf",
        "hilb": "hGd:vVs:B:o:x:y:", "mats": "hvo23", "specmoments": "vol:h:pnc", "resample": "hvep:a:b:", "matrix": "hc:vpPs", "diag": "htTbBvVqo:O:s:",
        "unitary": "hbBqvVtls:o:c:", "h5write": "hst", "adapt": "", "nrgchain": ""}


def mutate(rng, b, text):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 2, 4, 10])):
        k = rng.randrange(9)
        n = len(b)
        if not n:
            break
        p = rng.randrange(n)
        if k == 0:
            b[p] ^= 1 << rng.randrange(8)
        elif k == 1:
            del b[p:]
        elif k == 2:
            del b[p:p + rng.choice([1, 2, 8, 40])]
        elif k == 3:
            q = rng.randrange(n)
            b[p:p] = b[q:q + rng.choice([1, 8, 16, 100])]
        elif k == 4:
            if text:
                b[p:p] = rng.choice(VAL + [" ", "\n", "#", "\0", "[", "]", "=", "-", "(", ")", "/0", "^", ";"]).encode()
            else:
                q = p // 8 * 8
                b[q:q + 8] = struct.pack("<d", rng.choice([0.0, -0.0, math.inf, -math.inf, math.nan, 1e308, -1e308, 5e-324, 1e-300, 1.0]))
        elif k == 5:
            b[p:p + 1] = bytes([rng.randrange(256)])
        elif k == 6 and text:
            L = bytes(b).split(b"\n")
            rng.shuffle(L)
            b = bytearray(b"\n".join(L))
        elif k == 7 and text:
            L = bytes(b).split(b"\n")
            j = rng.randrange(len(L))
            T = L[j].split(b" ")
            T[rng.randrange(len(T))] = rng.choice(VAL).encode()
            L[j] = b" ".join(T)
            b = bytearray(b"\n".join(L))
        elif k == 8 and text:
            L = bytes(b).split(b"\n")
            j = rng.randrange(len(L))
            L.insert(j, L[j])
            b = bytearray(b"\n".join(L))
    return bytes(b)


def expr(rng, dep=0):
    """program of the matrix language, valid or not (never the shell escape)"""
    k = rng.randrange(12) if dep < 5 else rng.randrange(4)
    if k < 2:
        return rng.choice(["1", "0", "2.5", "1e-3", "99999999999", "U", "eps", "undefd", "a" * rng.choice([1, 30, 300]), ".5", "1e400"])
    if k == 2:
        return rng.choice(["coefxi[0]", "xi(1,2)", "coefzeta(1,0)", "coefxi(1,-1)", "coefxi(9,9)", "theta", "coefrzeta(1,1)", "theta0(3)", "coefxi(1,99999)", "coefdelta(1,1)", "coefV(1,1)", "coefV(3,3)"])
    if k == 3:
        return rng.choice(["sqrt", "exp", "log", "sin", "gammaPolCh", "nosuch", "abs", "pow"]) + rng.choice(["(", "["]) + expr(rng, dep + 1) + rng.choice([")", "]"])
    if k < 9:
        return expr(rng, dep + 1) + rng.choice(["+", "-", "*", "/", "^", "=", " "]) + expr(rng, dep + 1)
    if k == 9:
        return "(" + expr(rng, dep + 1) + ")"
    if k == 10:
        return "-" + expr(rng, dep + 1)
    return rng.choice(["#", "\n", "parse exp", "exit", "'", ";", "%", "ch1", "{", "}", ",", "\t"]) + expr(rng, dep + 1)


def fuzz(a):
    name, i = a
    rng = ck.rng("fuzz", name, i)
    d = common.scratch(ck.tmp, "f", name, i)
    try:
        args, ins = GEN[name](rng)
        mode = rng.choice(["file", "file", "file", "args", "args", "both"])
        data = {}
        setup(d, ins)
        if mode in ("file", "both"):
            for k, f in enumerate(ins):
                if rng.random() < 1.2 / len(ins):
                    data[k] = mutate(rng, f.bytes(), f.kind == "text" or f.kind == "raw" and f.path not in "ABC")
                    if name == "matrix" and f.path == "exp" and rng.random() < 0.6:
                        data[k] = "\n".join(" ".join(expr(rng) for _ in range(rng.randrange(1, 4))) for _ in range(rng.randrange(1, 6))).encode()
                    if name == "matrix":
                        data[k] = data[k].replace(b"!", b"1")
                    if not getattr(f, "stdin", False):
                        open(os.path.join(d, f.path), "wb").write(data[k])
        args = [str(x) for x in args]
        if mode != "file":
            files = {f.path for f in ins} | {"out", "out.dat", "val", "vec", "ro.dat", "io.dat", "f.h5", "/g/m"}
            spec = OPTS[name]
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.randrange(4)
                if k == 0:
                    j = [q for q, x in enumerate(args) if x not in files]
                    if j:
                        args[rng.choice(j)] = rng.choice(VAL)
                elif k == 1 and args:
                    del args[rng.randrange(len(args))]
                elif k == 2:
                    args.append(rng.choice(VAL))
                elif spec:
                    j = rng.choice([q for q, ch in enumerate(spec) if ch != ":"])
                    o = ["-" + spec[j]]
                    if spec[j + 1:j + 2] == ":":
                        o.append(rng.choice(VAL + [f.path for f in ins]))
                    args[0:0] = o
        if name == "kk" and len(args) and args[0] == "-" and not any(getattr(f, "stdin", False) for f in ins):
            args = ["in.dat", "out.dat"]
        # counts that only ask for a lot of work are not endless loops
        args = [x if not (x.lstrip("-").isdigit() and len(x) > 6) or rng.random() < 0.3 else "7" for x in args]
        r = execute(name, args, d, ins, data, timeout=40)
        vs = []
        cmd = f"{name} {' '.join(args)}"
        files = dict(tools.files_of(d), stdout=r.out[-3000:], stderr=r.err[-3000:], cmd=cmd, args=repr(args))
        m = memory(r)
        if m:
            vs.append(viol(f"memory-{name}", f"{cmd}: {m}", files))
        if r.timeout:
            return case(f"{name}/fuzz/{i}", False, {"time-outs": 1}, dict(cmd=cmd), inconclusive=f"timed out: {cmd}")
        return case(f"{name}/fuzz/{i}", True, {"executions": 1, "fuzzed": 1, "fuzzed and accepted": int(r.rc == 0)}, dict(cmd=cmd, rc=r.rc), vs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


PAR = lambda **k: "".join(f"{a}={b}\n" for a, b in k.items())


def hostile(i):
    """command lines and parameters that are unusable in a known way: a diagnostic, never an endless run or a crash"""
    rng = ck.rng("hostile", i)
    d = common.scratch(ck.tmp, "h", i)
    try:
        must = True         # the status must be non-zero
        k = i % 16
        if k in (0, 1):     # meshes that are never completed
            name = ("broaden", "bw")[k]
            args, ins = GEN[name](rng)
            while "-L" in args:
                args, ins = GEN[name](rng)
            bad = rng.choice([["-r", rng.choice(["1.0", "1", "0.5", "0", "-1", "nan", "1.0000000000000000001"])], ["-m", rng.choice(["0", "-1", "nan"])], ["-m", "2", "-M", "1"],
                              ["-M", rng.choice(["0", "-3", "nan"])]])
            rest = []       # without other mesh options
            j = 0
            while j < len(args):
                if args[j] in ("-m", "-M", "-r"):
                    j += 2
                else:
                    rest.append(args[j])
                    j += 1
            args = bad + rest
        elif k in (2, 3):
            name = "adapt"
            args, ins = GEN[name](rng)
            p = rng.choice(["outputstep=0", "outputstep=-0.1", "outputstep=nan", "xmax=inf", "xmax=1", "dx_fine=0", "dx_fine=-1e-3", "Lambda=1", "outputstep=0.1x", "xmax=abc", "dx_fast=", "max_subdiv=x"])
            ins[0].rows = "\n".join([p] * 0 + [l for l in PARAM.splitlines() if l.split("=")[0] != p.split("=")[0]] + [p]) + "\n"
        elif k == 4:
            name = "nrgchain"
            args, ins = GEN[name](rng)
            p = rng.choice(["Lambda=2.0x", "Nmax=1O", "mMAX=abc", "z=0,7", "preccpp=many", "xmax=?"])
            ins[0].rows = "\n".join([l for l in PARAM.splitlines() if l.split("=")[0] != p.split("=")[0]] + [p]) + "\n"
            must = not p.startswith("xmax")
        elif k in (5, 6):
            name = "unitary"
            a = [rng.randrange(1, 5) for _ in range(6)]
            o = rng.choice([[], ["-t"], ["-l"], ["-t", "-l"]])
            A, B, C = mat(rng, a[0], a[1]), mat(rng, a[2], a[3]), mat(rng, a[4], a[5])
            fit = (a[0] if "-t" in o else a[1]) == a[2] and a[3] == (a[5] if "-l" in o else a[4])
            must = not fit
            args, ins = o + ["-o", "out", "A", "B", "C"], [In("A", "text", a[1], A), In("B", "text", a[3], B), In("C", "text", a[5], C)]
        elif k == 7:
            name = "hilb"
            n = rng.randrange(0, 4)
            args, ins = ["-d", "dos.dat", "0.2", "0.1"], [In("dos.dat", "text", 2, symcurve(rng)[:n] if n else [])]
            must = n < 3
        elif k == 8:
            name = rng.choice(["integ", "resample", "kk"])
            args, ins = GEN[name](rng)
            ins[0].rows = ins[0].rows[:rng.randrange(1, 4)]
        elif k in (9, 10):
            name = rng.choice(["binavg", "intavg", "broaden", "bw", "mats", "specmoments"])
            args, ins = GEN[name](rng)
            j = args.index("s.dat" if name == "intavg" else "s.bin") + (2 if name == "bw" else 1)
            args[j] = rng.choice(["0", "-1", "-2147483648", str(args[j] + 1), "abc", ""])
        elif k == 11:
            name = "mats"
            args, ins = GEN[name](rng)
            j = rng.choice([-1, -2])
            args[j] = rng.choice(["0", "-1", "nan" if j == -2 else "x", "abc"])
        elif k == 12:
            name = "diag"
            n, m = rng.sample(range(1, 6), 2)
            while int(math.sqrt(n * m)) ** 2 == n * m:
                n, m = rng.sample(range(1, 6), 2)
            args, ins = ["-o", "val", "m.dat"], [In("m.dat", "text", m, mat(rng, n, m))]
        elif k == 13:
            name = rng.choice(["unitary", "h5write"])
            args, ins = GEN[name](rng)
            while "-B" in args:
                args, ins = GEN[name](rng)
            f = rng.choice(ins)
            if len(f.rows[0]) > 1:
                f.rows[rng.randrange(len(f.rows))] = f.rows[0][:-1]
            else:
                f.rows[-1] = f.rows[-1] * 2
            must = len(f.rows) > 1
        elif k == 14:
            name = "tdavg"
            args, ins = GEN[name](rng)
            f = rng.choice(ins)
            j = rng.randrange(len(f.rows))
            w = rng.choice([1, f.cols - 1, f.cols + 1])
            f.rows[j] = (f.rows[j] + [1.0])[:w]
        else:
            name = rng.choice(["kk", "hilb", "intavg", "integ", "resample", "mats", "h5write", "binavg", "broaden", "bw", "specmoments"])
            args, ins = GEN[name](rng)
            args = [str(a) for a in args]
            j = max(q for q in range(len(args)))
            if name in ("kk",) and len(args) == 1:
                args = []
            else:
                args = args + ["x", "y", "z", "w", "v"]
        args = [str(a) for a in args]
        setup(d, ins)
        r = execute(name, args, d, ins, timeout=60)
        vs = []
        cmd = f"{name} {' '.join(args)}"
        files = dict(tools.files_of(d), stdout=r.out[-3000:], stderr=r.err[-3000:], cmd=cmd)
        m = memory(r)
        if r.timeout:
            vs.append(viol(f"endless-{name}", f"{cmd}: does not end (ordinary runs take 0.1 s)", files))
        elif m:
            vs.append(viol(f"memory-{name}", f"{cmd}: {m}", files))
        elif "hard rss limit" in r.err or "requested allocation size" in r.err:
            vs.append(viol(f"endless-{name}", f"{cmd}: allocates without bounds", files))
        elif must and r.rc == 0:
            vs.append(viol(f"success-{name}", f"{cmd}: exit status 0" + (f" with {ins[0].rows.splitlines()[-1]}" if ins and isinstance(ins[0].rows, str) else ""), files))
        elif must and not (r.err.strip() or r.out.strip()):
            vs.append(viol(f"silent-{name}", f"{cmd}: exit status {r.rc} without any message", files))
        return case(f"hostile/{name}/{i}", True, {"executions": 1, "hostile": 1}, dict(cmd=cmd, rc=r.rc), vs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    tools.need(NAMES, V)
    names = [n for n in NAMES if n in GEN]
    ck.extra["tools"] = names
    only = os.environ.get("T08_ONLY")
    if only:
        names = only.split(",")
    ck.run(damaged, [(n, i) for i in range(ck.n(40, 600)) for n in names])
    ck.run(comments, [(n, i) for i in range(ck.n(6, 60)) for n in names if n not in ("mats", "binavg", "bw", "specmoments", "matrix")])
    ck.run(hostile, range(ck.n(800, 12000)))
    ck.run(fuzz, [(n, i) for i in range(ck.n(80, 3000)) for n in names])
    ck.finish()


common.main(main)
