#!/bin/bash
# tools/seedcheck.sh ID...: checks planted bugs (applies, builds, passes the stable tests, demo passes without and fails
# with the change) in private mount namespaces, four at a time.
one() {
  id=$1; d=/var/tmp/sc-$id; rm -rf "$d"; mkdir -p $d/tmp; cp -a /repo $d/repo
  cp -a /verif/seeded/$id $d/demo; rm -f $d/demo/*.diff $d/demo/meta.json
  unshare -m bash -c "
    mount --bind $d/repo /repo; mount --bind $d/tmp /tmp || exit 9
    cd /repo; git apply --check /dev/stdin < /verif/seeded/$id/patch.diff || { echo $id: does not apply; exit 1; }
    timeout 300 bash $d/demo/demo.sh >/tmp/d0 2>&1; a=\$?
    [ \$a = 0 ] || tail -3 /tmp/d0
    git apply /verif/seeded/$id/patch.diff
    bash /opt/vp/build.sh >/tmp/b 2>&1 || { echo $id: does not build; tail -3 /tmp/b; exit 1; }
    timeout 300 bash $d/demo/demo.sh >/tmp/d1 2>&1; b=\$?
    bash /opt/vp/test.sh /tmp/o.json >/tmp/t 2>&1
    python3 - $id \$a \$b <<'P'
import json,sys
B=json.load(open('/opt/vp/BASELINE.json'))['stable']
o=json.load(open('/tmp/o.json')); m=sorted(set(B)-set(o['passed']))
i,a,b=sys.argv[1:]
print(i,'OK' if not m and a=='0' and b!='0' else 'BAD','demo',a,b,'missing',m[:4])
P
  "
  rm -rf "$d"
}
export -f one
printf '%s\n' "$@" | xargs -P 3 -I{} bash -c 'one {}'
