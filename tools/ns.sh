#!/bin/bash
# ns.sh CMD...: runs CMD with private copies of /repo, /opt/vp and /verif mounted in their place
if [ -z "$IN_NS" ]; then
  T=$(mktemp -d /tmp/ns.XXXXXX)
  cp -a /repo $T/repo; cp -a /opt/vp $T/vp; cp -a /verif $T/verif
  IN_NS=1 T=$T unshare -Urm bash "$0" "$@"; r=$?
  find "$T" -delete
  exit $r
fi
mount --bind $T/repo /repo && mount --bind $T/vp /opt/vp && mount --bind $T/verif /verif || exit 9
export GIT_CONFIG_COUNT=1 GIT_CONFIG_KEY_0=safe.directory GIT_CONFIG_VALUE_0=/repo
cd /repo
eval "$@"
