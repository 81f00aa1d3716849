"""Runs one check:  python -m vfw.run C05 [--tier quick|thorough] [--replay FILE]

The parent never imports the code under test: it starts worker processes that
do, and decides from the event records they write.  Verdicts:
  exit 0  no monitor fired                    exit 1  VIOLATION line(s)
  exit 2  the run is inconclusive (a monitor that must be reached was not,
          nothing could be executed)
"""
import argparse
import collections
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", VERIF)  # development runs against a scratch copy write elsewhere
PY = "/opt/venv/bin/python"
STOP_FIRST = bool(os.environ.get("VERIF_STOP"))
BUDGET = {"quick": 420.0, "thorough": 3300.0}


def child_env(scratch):
    env = dict(os.environ)
    # one matplotlib font cache for all workers of a run (filled by the listing child)
    mpl = os.path.join(os.environ["VERIF_MPL"], "mpl")
    env.update(
        MPLBACKEND="Agg",
        MPLCONFIGDIR=mpl,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        PYTHONFAULTHANDLER="1",
        PYTHONPATH=REPO + os.pathsep + VERIF,
        VERIF_SCRATCH=scratch,
        HOME=scratch,
        TMPDIR=scratch,
    )
    return env


class Worker:
    def __init__(self, prop, tier, seed, cases, scratch, tag):
        self.cases = cases
        self.dir = os.path.join(scratch, "w" + tag)
        os.makedirs(self.dir)
        self.out = os.path.join(self.dir, "out.jsonl")
        with open(os.path.join(self.dir, "cases.json"), "w") as f:
            json.dump(cases, f)
        self.started = time.time()
        self.err = open(os.path.join(self.dir, "log"), "wb")
        self.p = subprocess.Popen(
            [PY, "-W", "ignore", "-m", "vfw.worker", prop, tier, str(seed), self.dir],
            cwd=self.dir,
            env=child_env(self.dir),
            stdout=self.err,
            stderr=self.err,
            stdin=subprocess.DEVNULL,
            start_new_session=True,
        )
        self.pos = 0
        self.current = None
        self.current_since = time.time()
        self.done = set()
        self.records = []
        self.killed = None
        self.info = None

    def poll_output(self):
        if not os.path.exists(self.out):
            return
        with open(self.out, "rb") as f:
            f.seek(self.pos)
            data = f.read()
        end = data.rfind(b"\n")
        if end < 0:
            return
        self.pos += end + 1
        for line in data[: end + 1].decode("utf-8", "replace").splitlines():
            rec = json.loads(line)
            if rec["ev"] == "start":
                self.current = tuple(rec["case"])
                self.current_since = time.time()
                self.current_limit = rec["timeout"]
            elif rec["ev"] == "info":
                self.info = rec
            elif rec["ev"] == "end":
                self.records.append(rec)
                self.done.add(tuple(rec["case"]))
                self.current = None
                self.current_since = time.time()

    def kill(self):
        import signal

        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def tail(self, n=2500):
        self.err.flush()
        with open(os.path.join(self.dir, "log"), "rb") as f:
            f.seek(0, 2)
            size = f.tell()
            f.seek(max(0, size - n))
            return f.read().decode("utf-8", "replace")


def list_cases(prop, tier, scratch):
    """Ask a child which cases the tier has (it imports only the check module's registry)."""
    r = subprocess.run(
        [PY, "-W", "ignore", "-m", "vfw.worker", prop, tier, "0", "--list"],
        cwd=scratch,
        env=child_env(scratch),
        stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
    )
    for line in r.stdout.decode("utf-8", "replace").splitlines():
        if line.startswith("CASES "):
            return json.loads(line[6:]), None
    return None, (r.stdout + r.stderr).decode("utf-8", "replace")[-3000:]


def load_known():
    path = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run only this scenario")
    ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in BUDGET else "quick"
    t0 = time.time()
    prop = a.prop
    scratch = tempfile.mkdtemp(prefix="vfw_%s_" % prop)
    os.environ["VERIF_MPL"] = scratch
    try:
        return _main(a, prop, tier, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(a, prop, tier, t0, scratch):
    seed = a.seed
    plan, err = list_cases(prop, tier, scratch)
    if plan is None:
        # the code under test cannot even be imported by the workload
        path = write_replay(prop, {"property": prop, "reason": "import", "log": err})
        print(err)
        write_evidence(prop, tier, seed, t0, [], {}, {"rule": "import of the code under test failed"}, 1, [], [])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    meta = plan["meta"]
    cases = [tuple(c) for c in plan["cases"]]
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        seed = rep["seed"]
        cases = [tuple(rep["case"])]
    elif a.only:
        cases = [c for c in cases if c[0] == a.only]
    n_workers = max(1, min(a.j, len(cases)))
    queues = [cases[i::n_workers] for i in range(n_workers)]
    deadline = t0 + BUDGET[tier]

    workers = []
    serial = 0
    live = []
    for q in queues:
        w = Worker(prop, tier, seed, q, scratch, str(serial))
        serial += 1
        live.append(w)
        workers.append(w)
    lost = []  # (case, reason, tail)
    while live:
        time.sleep(0.05)
        now = time.time()
        for w in list(live):
            w.poll_output()
            rc = w.p.poll()
            limit = getattr(w, "current_limit", 120)
            over = w.current is not None and now - w.current_since > limit
            late = now > deadline
            if STOP_FIRST and any(r["violations"] for r in w.records):  # development: the first alarm is enough
                deadline = 0
                late = True
            if rc is None and not over and not late:
                continue
            if rc is None:
                w.kill()
            w.poll_output()
            live.remove(w)
            if late and not over and rc is None:
                continue
            rest = [c for c in w.cases if c not in w.done]
            if rc == 0 and not rest:
                continue
            if w.current is not None:
                bad = w.current
            elif rest:
                bad = rest[0]
            else:
                continue
            lost.append((bad, "hang" if over else "died rc=%s" % rc, w.tail()))
            rest = [c for c in rest if c != bad]
            if rest and len(lost) < 12:
                nw = Worker(prop, tier, seed, rest, scratch, str(serial))
                serial += 1
                live.append(nw)
                workers.append(nw)

    records = [r for w in workers for r in w.records]
    infos = [w.info for w in workers if w.info]
    # a case that killed or hung its worker: confirm it alone, twice the limit
    violations = []
    unconfirmed = []
    confirm_by = max(deadline, time.time()) + 200
    seen_lost = set()
    for case, reason, tail in lost:
        if case[0] in seen_lost and len(violations) > 0:
            continue  # one confirmed loss per scenario is enough
        w = Worker(prop, tier, seed, [case], scratch, str(serial))
        serial += 1
        res = None
        while res is None:
            time.sleep(0.05)
            w.poll_output()
            rc = w.p.poll()
            if rc is not None:
                w.poll_output()
                res = "ok" if case in w.done else "died rc=%s" % rc
            elif w.current is not None and time.time() - w.current_since > 2 * w.current_limit:
                res = "hang"
                w.kill()
            elif time.time() > confirm_by:
                res = "budget"
                w.kill()
        if res == "ok":
            records.extend(w.records)
            unconfirmed.append("%s:%s %s, not confirmed alone" % (case[0], case[1], reason))
        elif res == "budget":
            unconfirmed.append("%s:%s %s, no time to confirm" % (case[0], case[1], reason))
        else:
            seen_lost.add(case[0])
            violations.append(
                dict(
                    case=case,
                    mech="process-" + res.split()[0],
                    msg="the process running this case %s (twice)\n%s" % (res, w.tail()),
                    log=[],
                )
            )

    known = [k for k in load_known() if k.get("status") == "known" and k["property"] == prop]
    known_hit = collections.OrderedDict()
    for r in records:
        for mech, msg in r["violations"]:
            k = next(
                (
                    k
                    for k in known
                    if k["scenario"] == r["case"][0] and k["mech"] == mech and k.get("match", "") in msg
                ),
                None,
            )
            if k is not None:
                known_hit.setdefault(k["id"], (k, r))
            else:
                violations.append(dict(case=tuple(r["case"]), mech=mech, msg=msg, log=r["log"]))

    executed = [r for r in records if not r.get("skip")]
    skips = collections.Counter(r["case"][0] + ": " + r["skip"] for r in records if r.get("skip"))
    exit_code = 0
    paths = []
    if violations:
        exit_code = 1
        by_mech = collections.OrderedDict()
        for v in violations:
            by_mech.setdefault((v["case"][0], v["mech"]), []).append(v)
        for (sc, mech), vs in list(by_mech.items())[:10]:
            v = vs[0]
            path = write_replay(
                prop,
                {
                    "property": prop,
                    "seed": seed,
                    "tier": tier,
                    "case": list(v["case"]),
                    "monitor": mech,
                    "message": v["msg"],
                    "history": v["log"],
                    "occurrences": len(vs),
                    "rerun": "cd /verif && %s -m vfw.run %s --replay <this file>" % (PY, prop),
                },
            )
            paths.append(path)
            print("%s case %s[%s] monitor %s (x%d): %s" % (prop, sc, v["case"][1], mech, len(vs), v["msg"][:600]))
    problems = []
    if not a.replay and not a.only:
        by_sc = collections.Counter(r["case"][0] for r in executed)
        planned = collections.Counter(c[0] for c in cases)
        for sc, n in planned.items():
            if by_sc[sc] == 0 and exit_code == 0:
                problems.append("no case of scenario %s was executed (%d planned)" % (sc, n))
    for k, (kf, r) in known_hit.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
    n_skipped_budget = len(cases) - len(records) - len(violations)
    write_evidence(
        prop,
        tier,
        seed,
        t0,
        records,
        skips,
        meta,
        len(violations),
        infos,
        unconfirmed + problems + (["%d planned cases not run (time budget)" % n_skipped_budget] if n_skipped_budget > 0 else []),
        list(known_hit),
    )
    if a.v or exit_code or problems:
        mons = collections.Counter()
        for r in records:
            mons.update(r["monitors"])
        print("monitors:", dict(mons))
        print("skips:", dict(skips), "unconfirmed:", unconfirmed)
    if exit_code == 0 and problems:
        print("INCONCLUSIVE property=%s %s" % (prop, "; ".join(problems)))
        return 2
    for p in paths:
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if not exit_code:
        print(
            "%s held: %d cases executed, %d monitor evaluations, %.1f s"
            % (prop, len(executed), sum(sum(r["monitors"].values()) for r in records), time.time() - t0)
        )
    return exit_code


def write_replay(prop, obj):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    n = 0
    while True:
        path = os.path.join(d, "%s_%d.json" % (prop, n))
        if not os.path.exists(path):
            break
        n += 1
        if n > 200:
            path = os.path.join(d, "%s_last.json" % prop)
            break
    with open(path, "w") as f:
        json.dump(obj, f, indent=1)
    return path


def write_evidence(prop, tier, seed, t0, records, skips, meta, n_viol, infos, remarks, known_hit=()):
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    events, mons, per_sc = collections.Counter(), collections.Counter(), collections.Counter()
    sigs = set()
    samples, sampled = [], collections.Counter()
    nontrivial = 0
    for r in records:
        if r.get("skip"):
            continue
        events.update(r["events"])
        mons.update(r["monitors"])
        per_sc[r["case"][0]] += 1
        if r["monitors"] and r["sig"] not in sigs:
            sigs.add(r["sig"])
            nontrivial += 1
        if sampled[r["case"][0]] < 1 and len(samples) < 12 and r["log"]:
            sampled[r["case"][0]] += 1
            samples.append({"case": "%s[%d]" % tuple(r["case"]), "history": r["log"][:12]})
    lines = {}
    executed_lines = collections.defaultdict(set)
    for inf in infos:
        for k, v in inf.get("lines", {}).items():
            executed_lines[k].update(v)
        for k, v in inf.get("functions", {}).items():
            lines[k] = lines.get(k, 0) + v
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(per_sc.values()),
            "distinct_nontrivial": nontrivial,
            "rule": meta.get("rule", "")
            + " A case counts as distinct and non-trivial when at least one monitor evaluated on it and its history (operations and drawn inputs) differs from every earlier case.",
            "samples": samples or [{"case": "none"}],
            "cases_per_scenario": dict(per_sc),
            "events_observed": dict(events),
            "monitor_evaluations": dict(mons),
            "calls_into_repo_observed": dict(sorted(lines.items(), key=lambda kv: -kv[1])[:60]),
            "distinct_repo_lines_executed": {k: len(v) for k, v in sorted(executed_lines.items())},
            "skipped_cases": dict(skips),
            "known_findings_hit": list(known_hit),
            "remarks": list(remarks),
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": n_viol,
    }
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if os.environ.get("VERIF_LINES"):  # development: which lines of the code under test the check executed
        with open(os.path.join(os.environ["VERIF_LINES"], prop + ".lines.json"), "w") as f:
            json.dump({k: sorted(v) for k, v in executed_lines.items()}, f)


if __name__ == "__main__":
    sys.exit(main())
