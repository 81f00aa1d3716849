"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
M = "yaocptool/modelling/"
T = "yaocptool/methods/"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mechanism],
                state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                observe_at=observe,
                hook_needed=None,
            ),
        )
    )


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

TECH = {}
exec(open(os.path.join(HERE, "tools", "props_tech.py")).read())

FIXES = "git -C /repo log --oneline --grep '^fix:'"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in P:
        if p["id"] in NOT_APPLICABLE:
            continue
        i = p["id"]
        checks.append(
            dict(
                property=i,
                quick_cmd="%s -m vfw.run %s --tier quick" % (PY, i),
                thorough_cmd="%s -m vfw.run %s --tier thorough" % (PY, i),
                evidence_file="evidence/%s.json" % i,
                technique=TECH[i],
                level="exploration",
                level_note=LEVEL_NOTE,
            )
        )
    man = dict(
        version=1,
        setup_cmd="%s -c 'import casadi, numpy, scipy, pandas, networkx'" % PY,
        hooks=dict(
            guard="none",
            enable="no hooks were added to /repo: the monitors watch the public interface from outside (argument snapshots, "
            "shadow state, reference implementations, recorded calls of the collaborators handed to the code)",
            source_commits=[],
        ),
        checks=checks,
        not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
        notes=NOTES,
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
