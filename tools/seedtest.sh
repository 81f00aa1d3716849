#!/bin/bash
# seedtest.sh ID...: confirm planted bugs in a scratch copy (applies, tests pass, demo 0 -> nonzero). Not used by any check.
for id in "$@"; do
  D=/verif/seeded/$id; W=$(mktemp -d /tmp/seedXXXX)
  cp -a /repo "$W/repo"; cd "$W/repo"
  mkdir "$W/d"; cp "$D"/demo* "$W/d"/
  timeout 300 bash "$W/d/demo.sh" >"$W/o1" 2>&1; a=$?
  if git apply "$D/patch.diff"; then
    timeout 300 bash "$W/d/demo.sh" >"$W/o2" 2>&1; b=$?
    PYTHONPATH="$W/repo" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests >"$W/o3" 2>&1
    t=$(tail -1 "$W/o3")
    [ $a = 0 ] && [ $b != 0 ] && [[ "$t" == *"170 passed"* ]] && s=OK || s=BAD
    echo "$s $id demo $a -> $b | $t"
    [ $s = BAD ] && { tail -5 "$W/o1"; tail -5 "$W/o2"; grep FAILED "$W/o3" | grep -v test_linear_mimo | head -5; }
  else echo "BAD $id does not apply"; fi
  rm -rf "$W"
done
