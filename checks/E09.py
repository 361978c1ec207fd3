"""E09: a run killed at any point can be started again with the same results.
The real engine runs (as an unprivileged user) under a preload library that kills
it before, in the middle of or after a chosen file operation. Monitors: the state
files left behind (a file under its final name must be complete: byte-identical
to the one of an undisturbed run), then the run that is started again - in resume
mode in the same work directory, or in a new one - must end well with the same
output files. State files cut short must make the run fail, or not matter."""
import os, re, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import common, build, faults
from vlib.common import case, viol

ck = common.Check("E09", "exploration",
                  "a case counts if the run was really killed (or the state file really cut) at the chosen operation and the run started again was compared with an undisturbed one",
                  ["the program is killed, not the machine: the operating system keeps what was written", "state files are damaged by truncation; there is no checksum against other changes"])
LAB = None
MKD = "vpwork"
KINDS = ["mixed", "fdm", "dmnrg", "complex", "cfs", "mats", "ls", "td"]
NAMES = dict(o="opening", w="writing", n="renaming", u="removing", d="creating or removing directory", i="opening for reading")
_ref = {}


def same(ref, files):
    return [n for n in ref if n not in ("DONE", "param", "data") and not n.endswith(".h5") and files.get(n) != ref[n]]


def config(i):
    rng = ck.rng("cfg", i)
    files, desc = faults.inputs(rng, KINDS[i % len(KINDS)], Nmax=rng.choice([3, 4]), light=rng.random() < 0.6)
    rm = rng.choice(["true", "false"])
    files = faults.setp(files, removefiles=rm, resume="true")
    return files, f"{desc} removefiles={rm}"


def prepare(i):
    """undisturbed run; and one that keeps all its state files, killed at the very end"""
    files, desc = config(i)
    d = f"{ck.tmp}/ref{i}"
    LAB.place(d, files)
    r = LAB.run(d, KINDS="ownud", MKD=MKD)
    shutil.rmtree(d, ignore_errors=True)
    vs = []
    state = {}
    if r.rc == 0:
        keep = faults.setp(files, removefiles="false")
        LAB.place(d, keep)
        q = LAB.run(d, KINDS="o", ONLY="DONE", MODE="kill", N=0, MKD=MKD)
        state = {os.path.basename(n): b for n, b in q.files.items() if n.startswith(MKD + "/")}
        shutil.rmtree(d, ignore_errors=True)
    else:
        vs.append(viol("failed", f"{desc}: undisturbed run: exit status {r.rc}: {r.err[-300:]}", files))
    return i, files, desc, r, state, vs


def undisturbed(i):
    _, files, desc, r, state, vs = _ref[i]
    return case(f"clean/{i}", r.rc == 0, {"file operations": len(faults.ops(r.log)), "state files": len(state)}, dict(input=desc), vs)


def leftovers(tag, r, state, files):
    """state files under their final names must be complete"""
    vs, n = [], 0
    for p, b in r.files.items():
        if "/" in p and not p.endswith(".tmp"):
            n += 1
            if os.path.basename(p) not in state:
                continue
            if b != state[os.path.basename(p)]:
                vs.append(viol("partial", f"{tag}: {os.path.basename(p)} was left behind with {len(b or b'')} bytes; complete it has {len(state[os.path.basename(p)])}", dict(files, **{"left.bin": b or b"", "complete.bin": state[os.path.basename(p)]})))
    return vs, n


def kills(a):
    i, seq, mode = a          # seq: [(operation, when), ...]
    _, files, desc, ref, state, _ = _ref[i]
    d = common.scratch(ck.tmp, "k")
    os.chmod(d, 0o755)
    LAB.place(d, files)
    fixed = dict(MKD=MKD) if mode != "fresh" else {}
    vs, obs, hits, tag = [], {}, 0, desc
    ops = faults.ops(ref.log)
    for n, when in seq:
        if os.path.exists(d + "/c/DONE"):
            os.remove(d + "/c/DONE")
        r = LAB.run(d, KINDS="ownud", MODE="kill", N=n, WHEN=when, **fixed)
        hits += bool(r.hit)
        op = ops[n] if n < len(ops) else None
        tag += f"; killed {dict(before='before', mid='in the middle of', after='after')[when]} operation {n}" + (f" ({NAMES[op[1]]} {op[2]})" if op else "")
        if r.rc == 0 and r.hit:
            vs.append(viol("alive", f"{tag}: exit status 0", files))
        v, c = leftovers(tag, r, state, files)
        vs += v
        obs["state files checked after a kill"] = obs.get("state files checked after a kill", 0) + c
        if "DONE" in r.files and r.hit and n < len(ops) - 3 and same(ref.files, r.files):
            vs.append(viol("done", f"{tag}: DONE is there, but {same(ref.files, r.files)[0]} is not complete", files))
    if mode == "noresume":
        for n, b in faults.setp(files, resume="false").items():
            open(f"{d}/c/{n}", "wb").write(b)
    if os.path.exists(d + "/c/DONE"):
        os.remove(d + "/c/DONE")
    q = LAB.run(d, KINDS="ownud", **fixed)
    shutil.rmtree(d, ignore_errors=True)
    fs = dict(files, **{"stdout.txt": q.out[-20000:], "stderr.txt": q.err[-4000:]})
    tag += f"; started again ({dict(fresh='new work directory', resume='resume mode, same work directory', noresume='without resume, same work directory')[mode]})"
    if q.timeout:
        vs.append(viol("hang", f"{tag}: did not end", fs))
    elif q.rc != 0 or "DONE" not in q.files:
        vs.append(viol("restart-failed", f"{tag}: exit status {q.rc}: {q.err[-300:]}", fs))
    else:
        bad = same(ref.files, q.files)
        if bad:
            vs.append(viol("restart-differs", f"{tag}: {bad[0]} differs from the undisturbed run", fs))
    obs.update({f"kills ({mode})": hits, "runs started again": 1, "runs started again that reused density matrices": int(q.rc == 0 and mode == "resume" and any("rho" in s for s in state) and not re.search(r"^\[(DM|FDM)\] \d", q.out, re.M)), "output files compared": len(ref.files)})
    return case(f"kill/{i}/{mode}/{seq}", hits == len(seq) or (len(seq) > 1 and hits > 0), obs, dict(case=tag), vs)


def cut_running(a):
    """a state file loses its tail between being written and being read, in one run"""
    i, op, ln = a
    _, files, desc, ref, state, _ = _ref[i]
    d = common.scratch(ck.tmp, "c")
    os.chmod(d, 0o755)
    LAB.place(d, files)
    r = LAB.run(d, KINDS="i", ONLY=op[2], MODE="trunc", N=op[0], LEN=ln, MKD=MKD)
    shutil.rmtree(d, ignore_errors=True)
    cut = any(l.startswith("CUT") for l in r.log)
    tag = f"{desc}: {op[2]} cut to {ln if ln >= 0 else str(-ln / 10) + ' percent'} before it is read"
    vs = []
    fs = dict(files, **{"stdout.txt": r.out[-20000:], "stderr.txt": r.err[-4000:]})
    if r.timeout:
        vs.append(viol("hang", f"{tag}: did not end", fs))
    elif r.rc == 0 and same(ref.files, r.files):
        vs.append(viol("cut-used", f"{tag}: exit status 0 although {same(ref.files, r.files)[0]} differs", fs))
    elif r.rc != 0 and "DONE" in r.files:
        vs.append(viol("done", f"{tag}: failed but wrote DONE", fs))
    return case(f"cut/{i}/{op[2]}/{op[0]}/{ln}", cut, {"state files cut before reading": int(cut), "rejected": int(r.rc != 0)}, dict(case=tag, exit=r.rc), vs)


def cut_resume(a):
    """the work directory of a killed run with damaged files in it, resume mode"""
    i, damage = a
    _, files, desc, ref, state, _ = _ref[i]
    d = common.scratch(ck.tmp, "r")
    os.chmod(d, 0o755)
    st = dict(state)
    for n, k in damage:
        if k == "gone":
            st.pop(n)
        elif k == "tmp":
            b = st.pop(n)
            st[n + ".tmp"] = b[:len(b) // 2]
        else:
            st[n] = st[n][:int(len(st[n]) * k)]
    LAB.place(d, {**files, **{f"{MKD}/{n}": b for n, b in st.items()}})
    r = LAB.run(d, KINDS="ownudi", MKD=MKD)
    shutil.rmtree(d, ignore_errors=True)
    tag = f"{desc}: started in resume mode with damaged state files {damage}"
    fs = dict(files, **{"stdout.txt": r.out[-20000:], "stderr.txt": r.err[-4000:]})
    vs = []
    if r.timeout:
        vs.append(viol("hang", f"{tag}: did not end", fs))
    elif r.rc == 0 and same(ref.files, r.files):
        vs.append(viol("cut-used", f"{tag}: exit status 0 although {same(ref.files, r.files)[0]} differs", fs))
    elif r.rc != 0 and "DONE" in r.files:
        vs.append(viol("done", f"{tag}: failed but wrote DONE", fs))
    elif r.rc != 0 and all(k in ("gone", "tmp") for _, k in damage):
        vs.append(viol("restart-failed", f"{tag}: exit status {r.rc}: {r.err[-300:]}", fs))
    return case(f"damaged/{i}/{damage}", True, {"runs with damaged state files": 1, "rejected": int(r.rc != 0)}, dict(case=tag, exit=r.rc), vs)


def main():
    global LAB
    LAB = faults.Lab(ck.tmp, build.engine("main"))
    from concurrent.futures import ThreadPoolExecutor
    n = ck.n(8, 24)
    with ThreadPoolExecutor(common.NCPU) as ex:
        for q in ex.map(prepare, range(n)):
            _ref[q[0]] = q
    ck.run(undisturbed, range(n))
    todo, cuts, dmg = [], [], []
    for i in range(n):
        _, files, desc, ref, state, _ = _ref[i]
        if ref.rc != 0:
            continue
        rng = ck.rng("plan", i)
        ops = faults.ops(ref.log)
        groups = {}
        for op in ops:
            groups.setdefault((op[1], op[2]), []).append(op[0])
        # all operations on the work directory, the ends and a random one of every output file
        for (k, p), l in groups.items():
            pick = l if MKD in p and (ck.thorough or k != "w") else sorted({l[0], l[-1], rng.choice(l)})
            for x in pick:
                for w in ["before", "mid"] if k == "w" else ["before", "after"]:
                    if not ck.thorough and rng.random() < (0.35 if MKD in p else 0.75):
                        continue
                    todo.append((i, ((x, w),), rng.choice(["resume", "resume", "fresh", "noresume"])))
        for _ in range(ck.n(12, 80)):        # killed again and again
            seq = tuple((rng.randrange(len(ops)), rng.choice(["before", "mid", "after"])) for _ in range(rng.choice([2, 2, 3])))
            todo.append((i, seq, rng.choice(["resume", "resume", "noresume"])))
        names = sorted(state)
        reads = [l.split(" ") for l in LABreads(i)]
        for t in reads:
            p = t[2]
            for ln in rng.sample([0, 1, 39, 40, 45, 50, -100, -300, -500, -700, -900, -990, -999], ck.n(2, 8)):
                cuts.append((i, (t[0], "i", p), ln))
        for _ in range(ck.n(14, 80)):
            k = rng.choice([1, 1, 2, 4])
            if names:
                dmg.append((i, tuple((x, rng.choice(["gone", "gone", "tmp", 0, 0.02, 0.3, 0.7, 0.99, 0.9999])) for x in rng.sample(names, min(k, len(names))))))
    ck.run(kills, todo)
    ck.run(cut_running, cuts)
    ck.run(cut_resume, dmg)
    ck.extra["containment"] = "runs as uid 65534" if faults.can_drop() else "removals outside the scratch directory are refused by the preload"
    ck.finish()


def LABreads(i):
    """how often each state file is opened for reading: lines 'k i path'"""
    _, files, desc, ref, state, _ = _ref[i]
    cnt, out = {}, []
    for l in ref.log:
        t = l.split(" ")
        if len(t) > 2 and t[1] == "i" and t[2].startswith(MKD + "/"):
            k = cnt.get(t[2], 0)
            cnt[t[2]] = k + 1
            out.append(f"{k} i {t[2]}")
    return out


common.main(main)
