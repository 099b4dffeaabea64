#!/bin/bash
# detect.sh [-w WORKERS] [-c CHECK] id...: the property's quick check (or CHECK's) against a
# copy of /repo with the patch; copies of /repo and /verif are mounted over them in a mount
# namespace of its own, so that both can be used meanwhile.
W=1; C=""
while getopts w:c: o; do case $o in w) W=$OPTARG;; c) C=$OPTARG;; esac; done
shift $((OPTIND-1))
mkdir -p /tmp/plant/ns
export SNAP=/tmp/plant/ns/v$$
cp -a /verif "$SNAP"
one() {
  id=$1; C=$2
  r=/tmp/plant/ns/r$$-$id
  cp -a /repo "$r"
  p=${C:-$(python3 -c "import json;print(json.load(open('$SNAP/seeded/$id/meta.json'))['property'])")}
  s=$(date +%s)
  VF_TARGET=$r-target VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick unshare -m bash -c "
    mount --bind $SNAP /verif && mount --bind $r /repo && cd /repo && git checkout -q -- . && git apply /verif/seeded/$id/patch.diff && cd /verif &&
    timeout 900 python3 tools/run.py $p quick" > /tmp/plant/det-$id-$p.log 2>&1; rc=$?
  e=$(date +%s)
  rm -rf "/tmp/plant/ns/r$$-$id" "/tmp/plant/ns/r$$-$id-target"
  echo "$id $p rc=$rc $((e-s))s $(grep -c '^VIOLATION' /tmp/plant/det-$id-$p.log) $(grep '^  ' /tmp/plant/det-$id-$p.log | head -1 | cut -c1-170)"
}
export -f one
printf '%s\n' "$@" | xargs -P "$W" -I{} bash -c "one {} '$C'"
rm -rf "/tmp/plant/ns/v$$"
