#!/usr/bin/env python3
"""mkseed.py <spec.py>: the spec defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (rust). Confirms the bug in a scratch copy."""
import sys, os, subprocess, json, shutil, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = "/verif/seeded/" + ns["ID"]
os.makedirs(d, exist_ok=True)
w = "/tmp/seedwork"
shutil.rmtree(w, ignore_errors=True)
subprocess.check_call(["cp", "-a", "/repo", w])
def sh(c, **k):
    return subprocess.run(c, shell=True, cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
open(d + "/demo.rs", "w").write(ns["DEMO"])
shutil.copy("/verif/tools/demo.sh", d + "/demo.sh")
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
r = sh(f"bash {d}/demo.sh")
print("clean demo rc", r.returncode, r.stdout[-600:] if r.returncode else "")
ok = r.returncode == 0
for f, o, n in ns["EDITS"]:
    p = w + "/" + f
    s = open(p).read()
    assert s.count(o) == 1, (f, s.count(o), o)
    open(p, "w").write(s.replace(o, n))
r = sh("git diff -- src")
open(d + "/patch.diff", "w").write(r.stdout)
r = sh("cargo test --workspace --no-fail-fast --offline 2>&1 | grep -E '^test |^error|panicked' | sort")
base = json.load(open("/opt/vp/BASELINE.json"))
names = json.dumps(base)
bad = [l for l in r.stdout.split("\n") if l.startswith("error") or ("FAILED" in l and l.split()[1].split("::")[-1] in names)]
print("tests:", "ok" if not bad else bad)
ok = ok and not bad
r = sh(f"bash {d}/demo.sh")
print("buggy demo rc", r.returncode, r.stdout[-300:])
ok = ok and r.returncode not in (0, 3)
shutil.rmtree(w, ignore_errors=True)
print("KEEP" if ok else "REJECT", ns["ID"])
if not ok and "--force" not in sys.argv:
    sys.exit(1)
