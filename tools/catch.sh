#!/bin/bash
# catch.sh ID...: run the property's check of each seed against a scratch copy
. /opt/vp/env.sh
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/catch-XXXX); cp -a /repo $w/r; git -C $w/r apply $d/patch.diff || echo APPLYFAIL
  out=$(cd /tmp && GOFLAGS=-mod=readonly timeout 600 /tmp/mc -repo $w/r -verif /tmp $p 2>&1); rc=$?
  echo "$([ $rc = 1 ] && echo CAUGHT || echo "MISSED($rc)") $id $p: $(echo "$out" | grep -v ^OK | head -${N:-1} | cut -c1-220)"
  rm -rf $w
done
