#!/bin/bash
# tools/detect.sh ID...: runs the quick check of the property against each planted bug (in a private mount namespace on a copy of /repo)
one() {
  id=$1; d=/var/tmp/dt-$id; rm -rf "$d"; mkdir -p $d; cp -a /repo $d/repo
  p=${PROP:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  unshare -m bash -c "mount --bind $d/repo /repo && cd /repo && git apply /verif/seeded/$id/patch.diff && cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick /opt/venv/bin/python sim/run.py check $p > $d/out 2>&1; echo \$? > $d/rc"
  echo "$id $p rc=$(cat $d/rc) $(grep -m1 VIOLATION $d/out | cut -c1-150) | $(tail -1 $d/out | cut -c1-200)"
  rm -rf "$d"
}
for i in "$@"; do one $i; done
