#!/bin/bash
# seedtest.sh SEED_DIR [check ids...]: in a private mount namespace with copies of /repo and /opt/vp, applies SEED_DIR/patch.diff,
# builds, runs the stable tests, the demo (before and after) and the checks; prints one line per step. Nothing outside the copies changes.
S=$(realpath "$1"); shift; S0=$S
ID=$(basename $S)
if [ -z "$IN_NS" ]; then
  T=$(mktemp -d /tmp/st.XXXXXX)
  cp -a /repo $T/repo; cp -a /opt/vp $T/vp; cp -a /verif $T/verif
  IN_NS=1 VT=$T T=$T unshare -Urm bash "$0" "$S" "$@"
  find "$T" -delete
  exit
fi
mount --bind $T/repo /repo && mount --bind $T/vp /opt/vp && mount --bind $T/verif /verif || exit 9
cd /repo
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
CH="${@:-$P}"
export GIT_CONFIG_COUNT=1 GIT_CONFIG_KEY_0=safe.directory GIT_CONFIG_VALUE_0=/repo
if [ -z "$SKIPTEST" ]; then
  bash /opt/vp/build.sh >/dev/null 2>&1
  mkdir $T/d; cp $S/* $T/d/; find $T/d -name "*.diff" -delete; find $T/d -name meta.json -delete
  (cd /repo; timeout 300 bash $T/d/demo.sh >$T/o 2>&1); r=$?; echo "$ID demo clean: $r (want 0)"; [ $r = 0 ] || tail -5 $T/o
fi
git apply $S/patch.diff || { echo "$ID PATCH FAILS"; exit; }
if [ -z "$SKIPTEST" ]; then
  bash /opt/vp/build.sh >$T/b 2>&1 || { echo "$ID BUILD FAILS"; tail -5 $T/b; exit; }
  (cd /repo; timeout 300 bash $T/d/demo.sh >$T/o 2>&1); r=$?; echo "$ID demo patched: $r (want !=0)"; tail -2 $T/o
  bash /opt/vp/test.sh $T/o.json >/dev/null 2>&1
  python3 - <<E2
import json
o=json.load(open('$T/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
bad=[t for t in b['stable'] if t not in o['passed']]
print("$ID tests:", "ok" if not bad else "BROKEN %s"%bad[:4])
E2
fi
for c in $CH; do
  out=$(python3-vt /verif/check.py $c --tier quick 2>&1); r=$?
  echo "$ID check $c: exit $r $(echo "$out" | grep -m1 VIOLATION)"
done
