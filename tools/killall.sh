#!/bin/bash
# killall.sh DIR: for every DIR/*.diff whose .test is OK: which check notices it (-> DIR/<n>.kill)
D=$(realpath $1)
rel() { python3 - "$1" <<P
import re,sys
s=open("/verif/tools/mutate.py").read()
d={}
exec(s[s.index("REL ="):s.index("SUBS =")],d)
print(d["REL"][re.search(r"^\+\+\+ b/\S*?([^/\s]+)$",open(sys.argv[1]).read(),re.M)[1]])
P
}
for t in $D/*.test; do
  grep -q ^OK $t || continue
  n=$(basename $t .test)
  [ -e $D/$n.kill ] && continue
  T=$(mktemp -d /tmp/mk.XXXXXX); cp -a /repo $T/repo
  git -C $T/repo apply $D/$n.diff
  (cd /verif; JOBS=${JOBS:-8} timeout 1500 python3-vt tools/mutate.py kill $T/repo $(rel $D/$n.diff) > $D/$n.kill 2>$D/$n.err)
  find $T -delete
  echo "$n $(tail -1 $D/$n.kill | cut -c1-200)"
done
