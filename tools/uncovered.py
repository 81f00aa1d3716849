"""uncovered.py DIR: lines of functions in the package no check executed (from VERIF_LINES=DIR runs); development tool."""
import ast, collections, glob, json, sys, os
R = "/repo/yaocptool/"
cov = collections.defaultdict(set)
for f in glob.glob(sys.argv[1] + "/*.lines.json"):
    for k, v in json.load(open(f)).items():
        cov[k].update(v)
tot = hit = 0
for root, _, files in os.walk(R):
    for fn in sorted(files):
        if not fn.endswith(".py"): continue
        p = os.path.join(root, fn); rel = p[len(R):]
        src = open(p).read()
        code = compile(src, p, "exec")
        want = set()
        def walk(c, top):
            if not top:
                ls = {l for _, _, l in c.co_lines() if l}
                ls.discard(c.co_firstlineno)
                want.update(ls)
            for k in c.co_consts:
                if hasattr(k, "co_lines"): walk(k, False)
        walk(code, True)
        miss = sorted(want - cov[rel]); tot += len(want); hit += len(want & cov[rel])
        lines = src.splitlines()
        if miss:
            print("== %s: %d of %d not executed" % (rel, len(miss), len(want)))
            if len(sys.argv) > 2 and (sys.argv[2] == "all" or sys.argv[2] in rel):
                for m in miss: print("   %4d %s" % (m, lines[m - 1].strip()[:130]))
print("executed %d of %d" % (hit, tot))
