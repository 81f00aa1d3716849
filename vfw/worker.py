"""Worker process: imports the code under test and executes cases, writing one
event record per case.  ``worker PROP TIER SEED DIR`` or ``... --list``."""
import collections
import importlib
import io
import json
import os
import sys
import time
import traceback

LINES = collections.defaultdict(set)
REPO = os.environ.get("VERIF_REPO", "/repo")


def install_call_counter():
    """Count calls of functions defined in the package (evidence of what was reached)."""
    import sys as _s

    counts = collections.Counter()
    prefix = os.path.join(REPO, "yaocptool") + os.sep
    if not hasattr(_s, "monitoring"):
        return counts
    mon = _s.monitoring
    tool = 4
    try:
        mon.use_tool_id(tool, "vfw")
    except ValueError:
        return counts

    def on_start(code, offset):
        fn = code.co_filename
        if not fn.startswith(prefix):
            return mon.DISABLE
        counts[fn[len(prefix):] + ":" + code.co_qualname] += 1

    def on_line(code, line):
        fn = code.co_filename
        if fn.startswith(prefix):
            LINES[fn[len(prefix):]].add(line)
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.PY_START | mon.events.LINE)
    return counts


def main():
    prop, tier, seed, where = sys.argv[1:5]
    seed = int(seed)
    module = "checks." + prop.lower()
    from vfw import core

    counts = install_call_counter()
    mod = importlib.import_module(module)
    import yaocptool

    real = os.path.realpath(yaocptool.__file__)
    if not real.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit("wrong package under test: " + real)
    scs = core.SCENARIOS[prop]
    if where == "--list":
        cases = []
        rows = [[(s.name, i) for i in range(s.quick if tier == "quick" else s.thorough)] for s in scs.values()]
        # interleave so that a run cut by its budget has covered every scenario
        m = max(len(r) for r in rows)
        for k in range(m):
            for r in rows:
                n = len(r)
                lo, hi = k * n // m, (k + 1) * n // m
                cases.extend(r[lo:hi])
        meta = {"rule": getattr(mod, "RULE", ""), "assumptions": getattr(mod, "ASSUMPTIONS", [])}
        print("CASES " + json.dumps({"cases": cases, "meta": meta}))
        return
    with open(os.path.join(where, "cases.json")) as f:
        cases = json.load(f)
    out = open(os.path.join(where, "out.jsonl"), "a", buffering=1)

    def emit(obj):
        out.write(json.dumps(obj) + "\n")
        out.flush()

    for name, i in cases:
        sc = scs[name]
        emit({"ev": "start", "case": [name, i], "timeout": sc.timeout})
        ctx = core.Ctx(seed, prop, name, i, tier)
        rec = {"ev": "end", "case": [name, i], "skip": None}
        t = time.time()
        try:
            sc.fn(ctx)
        except core.Skip as e:
            rec["skip"] = str(e) or "skipped"
        except core.Violation as e:
            ctx.violations.append((e.mech, e.msg))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where_ = "; ".join(
                "%s:%s" % (os.path.relpath(f.filename, REPO) if f.filename.startswith(REPO) else os.path.basename(f.filename), f.name)
                for f in tb[-4:]
            )
            ctx.violations.append(
                ("unexpected-" + type(e).__name__, "a valid use of the API failed: %s [%s]" % (str(e)[:500], where_))
            )
        rec.update(
            events=ctx.events,
            monitors=ctx.monitors,
            violations=ctx.violations,
            log=ctx.log[:60],
            sig=ctx.signature(),
            wall=round(time.time() - t, 3),
        )
        emit(rec)
    emit({"ev": "info", "functions": dict(counts.most_common(400)), "lines": {k: sorted(v) for k, v in LINES.items()}})


if __name__ == "__main__":
    main()
