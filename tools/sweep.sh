#!/bin/bash
# sweep.sh "C01 C02 ..." "seeds..." : quick tier of each check at each seed; prints only failures
cd "$(dirname "$0")/.."
export VERIF_OUT=$(mktemp -d)
for s in $2; do for c in $1; do
  /opt/venv/bin/python -m vfw.run $c --tier quick --seed $s > $VERIF_OUT/o 2>&1; r=$?
  [ $r != 0 ] && { echo "== $c seed $s rc $r"; grep -v "^KNOWN" $VERIF_OUT/o | tail -15; }
done; done
rm -rf "$VERIF_OUT"; echo done
