#!/bin/bash
# survey.sh DIR: for every DIR/*.diff: build and stable tests in a private copy (-> DIR/<n>.test), 3 at a time
D=$(realpath $1)
one() {
  D=$1; n=$2
  [ -e $D/$n.test ] && exit
  T=$(mktemp -d /tmp/su.XXXXXX); cp -a /repo $T/repo; cp -a /opt/vp $T/vp
  T=$T D=$D n=$n unshare -Urm bash -c 'mount --bind $T/repo /repo && mount --bind $T/vp /opt/vp; cd /repo
   export GIT_CONFIG_COUNT=1 GIT_CONFIG_KEY_0=safe.directory GIT_CONFIG_VALUE_0=/repo
   git apply $D/$n.diff || { echo NOAPPLY > $D/$n.test; exit; }
   bash /opt/vp/build.sh >/dev/null 2>&1 || { echo NOBUILD > $D/$n.test; exit; }
   timeout 300 bash /opt/vp/test.sh $T/o.json >/dev/null 2>&1
   python3 -c "
import json,os
try:
  o=json.load(open(\"$T/o.json\"))
except Exception: print(\"BROKEN no result\"); raise SystemExit
b=json.load(open(\"/opt/vp/BASELINE.json\"))
bad=[t for t in b[\"stable\"] if t not in o[\"passed\"]]
print(\"OK\" if not bad else \"BROKEN %d\"%len(bad))" > $D/$n.test'
  find $T -delete
}
export -f one
ls $D/*.diff | xargs -n1 basename | sed 's/.diff//' | xargs -P ${P:-3} -I{} bash -c "one $D {}"
