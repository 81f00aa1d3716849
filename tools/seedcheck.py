"""seedcheck.py [--all] [--tier T] [--seed N] [--props C01,C02] PATCH_OR_ID...: run the checks against planted changes, each in a
scratch copy of /repo (development tool, used by no check).  --all: every check, not only the one the bug was planted for."""
import argparse, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*"); ap.add_argument("--all", action="store_true"); ap.add_argument("--tier", default="quick")
ap.add_argument("--seed", default="1"); ap.add_argument("--props", default=""); ap.add_argument("-j", type=int, default=4)
a = ap.parse_args()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
ids = a.ids or sorted(os.listdir(V + "/seeded"))

def one(i):
    d = i if os.path.isfile(i) else V + "/seeded/%s/patch.diff" % i
    meta = json.load(open(os.path.dirname(d) + "/meta.json")) if os.path.exists(os.path.dirname(d) + "/meta.json") else {}
    w = tempfile.mkdtemp(prefix="sc", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        if subprocess.run(["git", "-C", w + "/repo", "apply", os.path.abspath(d)]).returncode:
            return "%-34s DOES NOT APPLY" % i
        props = a.props.split(",") if a.props else (ALL if a.all else [meta["property"]])
        res = []
        for p in props:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "vfw.run", p, "--tier", a.tier, "--seed", a.seed], cwd=V, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=w + "/repo", VERIF_OUT=w + "/out"))
            if r.returncode:
                n = sum(l.startswith("VIOLATION") for l in r.stdout.splitlines())
                res.append("%s:%s" % (p, n if r.returncode == 1 else "exit%d" % r.returncode))
        own = meta.get("property")
        return "%-34s %s %s %s" % (i, own, "caught" if any(x.startswith(str(own) + ":") for x in res) else ("other" if res else "MISSED"), " ".join(res))
    finally:
        shutil.rmtree(w, ignore_errors=True)

with ThreadPoolExecutor(a.j) as ex:
    for l in ex.map(one, ids):
        print(l, flush=True)
