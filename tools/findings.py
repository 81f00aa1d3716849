"""Rewrites the 'fixed' entries of KNOWN_FINDINGS.json from /repo's fix: commits (run by hand, never by a check)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {}
for line in open(os.path.join(HERE, "tools", "fixes.txt")):
    if line.strip():
        i, s = line.rstrip("\n").split(" ", 1)
        PROP[s] = i
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "7fc7e36.."], capture_output=True, text=True).stdout
path = os.path.join(HERE, "KNOWN_FINDINGS.json")
d = json.load(open(path))
d["findings"] = [f for f in d["findings"] if f["status"] != "fixed"]
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        s = s[5:]
        d["findings"].append({"id": "fixed-" + h, "status": "fixed", "property": PROP[s], "what": "fixed: property=%s %s %s" % (PROP[s], h, s)})
json.dump(d, open(path, "w"), indent=1)
open(path, "a").write("\n")
