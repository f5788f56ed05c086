"""Writes /verif/MANIFEST.json (run by hand; the result is committed)."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(ROOT, "harness", "techniques.json")))
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^monitor:"], capture_output=True, text=True).stdout.split()
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "harness", "p_%s.py" % i.lower())) and i in TECH:
        checks.append({
            "property": i,
            "quick_cmd": "python3 harness/check.py %s quick" % i,
            "thorough_cmd": "python3 harness/check.py %s thorough" % i,
            "technique": TECH[i][0],
            "level": "exploration",
            "level_note": TECH[i][1],
        })
    else:
        na.append({"property": i, "reason": "no check is claimed yet; see DESIGN.md"})
m = {
    "version": 1,
    "setup_cmd": "python3 harness/build.py",
    "hooks": {"guard": "cfg(ruruby_monitor)", "enable": "RUSTFLAGS='--cfg ruruby_monitor' (harness/build.py)",
              "source_commits": hook},
    "checks": checks,
    "not_applicable": na,
    "notes": "Runtime monitoring of generated programs; see DESIGN.md. Known findings and fixes: known_findings.txt.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
