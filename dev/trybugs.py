"""trybugs.py FILE [ID...]: applies each change to a clone of the repository and runs the property's check"""
import sys, os, subprocess, time
ns = {}
exec(open(sys.argv[1]).read(), ns)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "/tmp/wk/" + os.environ.get("SEEDREPO", "seedrepo")
if not os.path.isdir(C): subprocess.run(["git", "clone", "-q", "/tmp/wk/repo", C], check=True)
sel = sys.argv[2:]
for i, p, ed in ns["B"]:
    if (sel and i not in sel) or not ed: continue
    subprocess.run(["git", "-C", C, "checkout", "-q", "--", "."]); subprocess.run(["git", "-C", C, "pull", "-q"])
    try:
        for f, o, n in ed:
            s = open(f"{C}/{f}").read()
            assert s.count(o) == 1, (f, o, s.count(o))
            open(f"{C}/{f}", "w").write(s.replace(o, n))
    except AssertionError as e:
        print(i, "NOT APPLICABLE", e, flush=True); continue
    t = time.time()
    os.makedirs("/tmp/wk/demo", exist_ok=True)
    log = f"/tmp/wk/demo/{i}.log"
    with open(log, "w") as fh:
        r = subprocess.run(["timeout", "1500", "python3-vt", f"checks/{p}.py"], cwd=V, stdout=fh, stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_REPO=C, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))).returncode
    n = sum(l.startswith("VIOLATION") for l in open(log))
    print(f"{i}: rc={r} {n} violations, {time.time() - t:.0f} s", flush=True)
subprocess.run(["git", "-C", C, "checkout", "-q", "--", "."])
