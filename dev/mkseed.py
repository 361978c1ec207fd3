"""mkseed.py SPEC.py : creates seeded/<id>/ from a spec (ID, PROP, EDITS=[(file,old,new)], NEEDS, BREAKS, DEMO, EXTRA={name:text}, ALSO)"""
import sys, os, subprocess, json, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
R = os.environ.get("VERIF_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = V + "/seeded/" + ns["ID"]
os.makedirs(d, exist_ok=True)
w = "/tmp/mkseed.%d" % os.getpid()
os.makedirs(w)
fs = sorted({e[0] for e in ns["EDITS"]})
for side in "ab":
    for f in fs:
        os.makedirs(os.path.dirname(f"{w}/{side}/{f}"), exist_ok=True)
        shutil.copy(R + "/" + f, f"{w}/{side}/{f}")
for f, o, n in ns["EDITS"]:
    s = open(f"{w}/b/{f}").read()
    assert s.count(o) == 1, (f, o, s.count(o))
    open(f"{w}/b/{f}", "w").write(s.replace(o, n))
p = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=w, capture_output=True, text=True).stdout
open(d + "/patch.diff", "w").write(p)
open(d + "/demo.sh", "w").write("#!/bin/bash\n" + ns["DEMO"].lstrip("\n"))
for k, v in ns.get("EXTRA", {}).items():
    open(d + "/" + k, "w").write(v.lstrip("\n"))
if ns.get("ENGINE"):
    shutil.copy(V + "/dev/engine.sh", d + "/engine.sh")
    shutil.copytree(V + "/shim", d + "/shim", dirs_exist_ok=True)
m = dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"])
if ns.get("ALSO"): m["also"] = ns["ALSO"]
json.dump(m, open(d + "/meta.json", "w"), indent=1)
shutil.rmtree(w)
print(subprocess.run(["git", "-C", R, "apply", "--check", d + "/patch.diff"], capture_output=True, text=True))
