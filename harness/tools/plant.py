"""Development tool (no check uses it): builds a planted bug in a scratch copy of /repo, verifies it and stores it.
usage: plant.py SPEC.py   SPEC defines id, prop, needs, breaks, edits=[(file, old, new)], demo (ruby), out (expected text)
The demonstration prints something else, crashes or does not end with the change."""
import json, os, subprocess, sys
S = "/tmp/b/seed"
spec = {}
exec(open(sys.argv[1]).read(), spec)

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
os.makedirs(S, exist_ok=True)
r = sh("rsync -a --delete --exclude target /repo/ %s/ 2>&1 || (find %s -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {} +; cd /repo && tar cf - --exclude=./target . | tar xf - -C %s)" % (S, S, S))
sh("git -C %s checkout -q -- ." % S)
if not os.path.exists(S + "/target"):
    sh("cp -a /repo/target %s/target" % S)
orig = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
for f, old, new in spec["edits"]:
    p = S + "/" + f
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    base = sh("git -C /repo show %s:%s" % (orig, f)).stdout
    for l in old.split("\n"):
        if l not in new.split("\n") and l.strip() and l not in base:
            print("NOT ORIGINAL:", l)
    open(p, "w").write(s.replace(old, new))
diff = sh("git -C %s diff" % S).stdout
r = sh(". /opt/vp/env.sh; cd %s && sed 's#/repo#%s#g' /opt/vp/test.sh > /tmp/b/seedtest.sh && cargo test --workspace --no-run --offline 2>&1 | grep -E '^error' -A8; bash /tmp/b/seedtest.sh /tmp/b/seed.json >/tmp/b/seedtest.log 2>&1" % (S, S))
print(r.stdout[-3000:])
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
got = set(json.load(open("/tmp/b/seed.json"))["passed"])
missing = sorted(base - got)
print("missing tests:", missing[:6], len(missing))
d = "/verif/seeded/" + spec["id"]
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.rb", "w").write(spec["demo"].lstrip("\n"))
open(d + "/expected.txt", "w").write(spec["out"].lstrip("\n"))
open(d + "/demo.sh", "w").write("""#!/bin/bash
# Runs demo.rb on the built interpreter in /repo (the current directory) and compares its output.
here=$(cd "$(dirname "$0")" && pwd)
out=$(%stimeout 120 ./target/debug/ruruby "$here/demo.rb" 2>/dev/null)
rc=$?
[ $rc -eq 0 ] || { echo "exit $rc"; exit 1; }
diff <(printf '%%s\\n' "$out") "$here/expected.txt"
""" % spec.get("env", ""))
json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
a = sh("bash %s/demo.sh" % d, cwd="/repo")
b = sh("bash %s/demo.sh" % d, cwd=S)
print("unchanged:", a.returncode, a.stdout[-600:])
print("planted:", b.returncode, b.stdout[-600:])
ok = a.returncode == 0 and b.returncode != 0 and not missing
print("OK" if ok else "NOT OK")
