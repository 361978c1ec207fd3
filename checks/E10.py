"""E10: success is reported only for complete results, scratch files are cleaned up.
The real engine runs as an unprivileged user under a preload library that logs
every file operation and makes chosen ones fail (no space, I/O error, no
permission), once or from then on. Monitors: exit status, DONE (a stale one is
put there beforehand), the output files compared with those of an undisturbed
run, the directory tree with canary files, and the log of removals."""
import os, re, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common, build, faults
from vlib.common import case, viol

ck = common.Check("E10", "exploration",
                  "a case counts if the chosen operation was really made to fail (or the chosen error really occurred) and exit status, DONE, outputs and directory tree were judged",
                  ["failures that the system reports only when a file is closed are not injected", "HDF5 output is not judged (the HDF5 wrapper here is a stand-in)"])
LAB = None
CAN = {"keep.txt": b"canary\n", "sub/keep2.txt": b"canary 2\n", "abcdef/unitary0": b"someone else's\n", "DONE": b"stale\n", "wd/other.txt": b"canary 3\n", "wd/zzzzzz/rho1": b"canary 4\n"}
KINDS = ["mixed", "dmnrg", "complex", "fdm", "gt", "cfs", "mats", "ls", "td"]


def judge(tag, r, ref, files, fault="", complete=True):
    """what must hold after any run, however it ended"""
    vs = []
    fs = dict(files, **{"stdout.txt": r.out[-20000:], "stderr.txt": r.err[-5000:], "ops.log": "\n".join(r.log)[-200000:]})
    if r.timeout:
        return [viol("hang", f"{tag}: did not end", fs)]
    fresh = r.files.get("DONE") != CAN["DONE"] if "DONE" in CAN else "DONE" in r.files
    if r.files.get("DONE") is None:
        fresh = False
    if r.rc != 0 and fresh:
        vs.append(viol("done-failed", f"{tag}: exit status {r.rc}, but a DONE file was written", fs))
    if r.rc == 0 and not fresh and b"\ndone=false" not in files["param"]:
        vs.append(viol("no-done", f"{tag}: exit status 0 without DONE", fs))
    if (r.rc == 0 or fresh) and ref is not None and complete:
        bad = [n for n in ref if n not in CAN and not n.endswith(".h5") and r.files.get(n) != ref[n]]
        if bad:
            vs.append(viol("incomplete", f"{tag}: exit status {r.rc}{', DONE' if fresh else ''}, but {bad[0]} is {'missing' if r.files.get(bad[0]) is None else 'incomplete or different'}", fs))
    for n, b in CAN.items():
        if n != "DONE" and r.files.get(n) != b:
            vs.append(viol("canary", f"{tag}: {n}, which the run did not create, was {'removed' if n not in r.files else 'changed'}", fs))
    for l in r.outside[:1]:
        vs.append(viol("outside", f"{tag}: tried to remove or rename something outside its directory: {l}", fs))
    work = [l.split(" ")[2] for l in r.log if l.startswith("- D ")]
    own = {n for n in r.dirs if os.path.dirname(n) + "/" + os.path.basename(n) not in ("x",)} - {os.path.dirname(n) for n in CAN} - {"sub", "abcdef", "wd", "wd/zzzzzz"}
    if own and not fault.startswith("removal"):
        vs.append(viol("workdir-left", f"{tag}: exit status {r.rc}; the work directory {sorted(own)[0]} was left behind", fs))
    for i, k, p, n in faults.ops(r.log):
        if k in "ud" and not any(p == w or p.startswith(w + "/") for w in work) and "XXXXXX" not in p and not p.endswith(".tmp"):
            vs.append(viol("removal", f"{tag}: removed {p}, which is not in the work directory {work}", fs))
            break
    tmp = [n for n in r.files if n.endswith(".tmp")]
    if tmp and not own:
        vs.append(viol("tmp-left", f"{tag}: temporary file {tmp[0]} left behind", fs))
    return vs


def describe(op):
    return f"{dict(o='opening', w='writing', n='renaming', u='removing', d='creating or removing directory', i='opening for reading', r='reading')[op[1]]} {re.sub('^[^/]{6}/', 'workdir/', op[2])}"


def config(i):
    rng = ck.rng("cfg", i)
    kind = KINDS[i % len(KINDS)]
    files, desc = faults.inputs(rng, kind)
    if rng.random() < 0.3:
        files = faults.setp(files, removefiles="false")
    return rng, files, desc


_ref = {}


def reference(i):
    rng, files, desc = config(i)
    d = f"{ck.tmp}/ref{i}"
    LAB.place(d, {**CAN, **files})
    r = LAB.run(d, KINDS="ownudir")
    shutil.rmtree(d, ignore_errors=True)
    return rng, files, desc, r


def prepare(i):
    rng, files, desc, r = reference(i)
    vs = judge(f"{desc}: undisturbed run", r, None, files)
    if r.rc != 0:
        vs.append(viol("failed", f"{desc}: undisturbed run: exit status {r.rc}: {r.out[-200:]} {r.err[-200:]}", files))
    return i, files, desc, r, vs


def undisturbed(i):
    _, files, desc, r, vs = _ref[i]
    return case(f"clean/{i}", r.rc == 0, {"file operations logged": len(r.log), "output files": len(r.files) - len(CAN)}, dict(input=desc), vs)


def plan(i, r, rng):
    """faults to inject: every kind of operation on every file, ends and random middles"""
    groups = {}
    for op in faults.ops(r.log):
        p = re.sub(r"^[^/]{6}(?=/|$)", "W", re.sub(r">[^/]{6}/.*", ">", op[2])) if op[2] not in r.files else op[2]
        groups.setdefault((op[1], re.sub(r"\d+", "#", p) if "/" in p else p), []).append(op)
    out = []
    for g, l in sorted(groups.items()):
        if g[0] == "d" and "XXXXXX" not in g[1] and g[1] == "W":
            pass
        pick = {0, len(l) - 1} | {rng.randrange(len(l)) for _ in range(ck.n(2, 12))}
        for k in sorted(pick):
            op = l[k]
            e = rng.choice({"o": [28, 13, 5, 24], "w": [28, 5, 122], "n": [28, 5, 18], "i": [5, 13, 24], "r": [5], "u": [5, 30], "d": [28, 13]}[op[1]])
            out.append((i, op, e, 0, ""))
        if g[0] in "ow":
            out.append((i, l[rng.randrange(len(l))], 28, 1, "w" if g[0] == "w" else "ow"))
    return out


def inject(a):
    i, op, e, persist, kinds = a
    _, files, desc, ref, _ = _ref[i]
    d = common.scratch(ck.tmp, "f")
    os.chmod(d, 0o755)
    LAB.place(d, {**CAN, **files})
    n = op[0]
    K = "ownudir"
    if kinds:      # count only these kinds: index among them
        n = sum(1 for q in faults.ops(ref.log) if q[1] in kinds and q[0] < op[0])
        K = kinds
    r = LAB.run(d, KINDS=K, MODE="fail", N=n, ERR=e, PERSIST=persist)
    shutil.rmtree(d, ignore_errors=True)
    tag = f"{desc}: error {e} {'from then on ' if persist else ''}{describe(op)} (operation {op[0]})"
    rem = "removal" if op[1] in "ud" and "XXXXXX" not in op[2] else ""
    vs = judge(tag, r, ref.files, files, rem)
    return case(f"fault/{i}/{op[0]}/{e}/{persist}", bool(r.hit), {f"injected: {dict(o='open', w='write', n='rename', u='remove', d='directory', i='open for reading', r='read')[op[1]]}": 1,
                                                                   "runs that reported failure": int(r.rc != 0), "runs that succeeded in spite of the fault": int(r.rc == 0), "file operations logged": len(r.log)},
                dict(input=desc, fault=tag), vs)


ERRORS = [dict(T="-1"), dict(symtype="XYZ"), dict(broaden_ratio="0.5"), dict(alpha="-0.1"), dict(diag="foo"), dict(mult="foo"), dict(discretization="Q"), dict(Lambda="0.9"), dict(keep="0"),
          dict(broaden_max="-3"), dict(diag_mode="foo"), dict(omega0="nan"), dict(T="abc"), dict(fdm="maybe"), dict(broaden_min="5.0")]


def errors(a):
    i, k, mpi = a
    rng = ck.rng("err", i, k)
    files, desc = faults.inputs(ck.rng("errcfg", i), "mixed", light=True)
    what = ""
    if k < len(ERRORS):
        files = faults.setp(files, **ERRORS[k])
        what = str(ERRORS[k])
    else:
        dat = files["data"]
        n = rng.randrange(10, len(dat) - 30)
        files = dict(files, data=dat[:n])
        what = f"data cut to {n} of {len(dat)} bytes"
    d = common.scratch(ck.tmp, "e")
    os.chmod(d, 0o755)
    LAB.place(d, {**CAN, **files})
    r = LAB.run(d, mpi=mpi, KINDS="ownudir")
    shutil.rmtree(d, ignore_errors=True)
    tag = f"{desc}, {what}{f', {mpi} ranks' if mpi else ''}"
    if mpi and not any(l.startswith("- D") for l in r.log) and r.rc != 0:
        return case(f"error/{i}/{k}/{mpi}", True, {"errors provoked": 1, "ended before the work directory was created": 1}, None, judge(tag, r, None, files))
    vs = judge(tag, r, None, files)
    if r.rc == 0 and (k < 12 or k >= len(ERRORS)) and not (k in (2, 3, 9)):
        vs.append(viol("accepted", f"{tag}: exit status 0", files))
    return case(f"error/{i}/{k}/{mpi}", r.rc != 0, {"errors provoked": 1, "runs that reported failure": int(r.rc != 0)}, dict(input=tag), vs)


WD = [dict(), dict(args=["-w", "wd"]), dict(env="wd"), dict(env="wd", args=["-w", "sub"]), dict(args=["-w", "wd/"]), dict(args=["-w", "nonexistent"], bad=True), dict(env="nonexistent", bad=True), dict(args=["-w", "keep.txt"], bad=True),
      dict(args=["-w", "./wd/../sub"]), dict(abs=True)]


def workdirs(a):
    i, k, fail, mpi = a
    rng = ck.rng("wd", i, k)
    files, desc = faults.inputs(rng, rng.choice(["fdm", "dmnrg", "complex"]), light=True)
    w = WD[k]
    d = common.scratch(ck.tmp, "w")
    os.chmod(d, 0o755)
    LAB.place(d, {**CAN, **files})
    args = list(w.get("args", []))
    if w.get("abs"):
        args = ["-w", d + "/c/wd"]
    fp = dict(KINDS="ownudir")
    if fail:
        fp = dict(KINDS="nr", MODE="fail", N=rng.randrange(12, 40), ERR=5)
    r = LAB.run(d, args=args, mpi=mpi, extra={"NRG_WORKDIR": w["env"]} if "env" in w else None, **fp)
    shutil.rmtree(d, ignore_errors=True)
    tag = f"{desc}, work directory {w}{', failing' if fail else ''}{f', {mpi} ranks' if mpi else ''}"
    vs = judge(tag, r, None, files)
    work = [l.split(" ")[2] for l in r.log if l.startswith("- D ")]
    if w.get("bad"):
        if r.rc == 0:
            vs.append(viol("workdir-bad", f"{tag}: exit status 0 although the directory cannot be used", files))
    elif not fail and r.rc != 0:
        vs.append(viol("failed", f"{tag}: exit status {r.rc}: {r.err[-300:]}", files))
    want = w.get("args", [None, None])[1] or w.get("env") or ("wd" if w.get("abs") else "")
    want = os.path.normpath(want) if want else ""
    if not w.get("bad") and work and os.path.dirname(work[0]) != ("" if want == "." else want):
        vs.append(viol("workdir-place", f"{tag}: the work directory is {work[0]}", files))
    return case(f"workdir/{i}/{k}/{fail}/{mpi}", bool(work) or w.get("bad", False), {"work directories created": len(work), "file operations logged": len(r.log)}, dict(input=tag), vs)


def main():
    global LAB
    LAB = faults.Lab(ck.tmp, build.engine("main"))
    n = ck.n(7, 18)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(common.NCPU) as ex:
        for q in ex.map(prepare, range(n)):
            _ref[q[0]] = q
    ck.run(undisturbed, range(n))
    todo = []
    for i in range(n):
        if _ref[i][3].rc == 0:
            todo += plan(i, _ref[i][3], ck.rng("plan", i))
    ck.run(inject, todo)
    ck.run(errors, [(i, k, 0) for i in range(ck.n(1, 4)) for k in range(len(ERRORS) + ck.n(12, 60))] + [(0, k, 2) for k in range(0, len(ERRORS) + 4, ck.n(4, 1))])
    ck.run(workdirs, [(i, k, f, 0) for i in range(ck.n(1, 4)) for k in range(len(WD)) for f in (0, 1)] + [(0, k, f, 2) for k in range(ck.n(3, 5)) for f in (0, 1)])
    ck.extra["containment"] = "runs as uid 65534" if faults.can_drop() else "removals outside the scratch directory are refused by the preload"
    ck.finish()


common.main(main)
