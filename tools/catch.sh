#!/bin/bash
# catch.sh [ids…]: does the check of the property catch the planted bug? (analyses scratch copies, not /repo)
. /opt/vp/env.sh; export GOFLAGS=-mod=vendor
(cd /verif/checker && go build -o /tmp/vp .) || exit 1
one() {
  id=$1; s=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  r=$(mktemp -d /tmp/catch-XXXX); cp -a /repo/. $r/; (cd $r && git apply $s/patch.diff) || echo "$id does not apply"
  out=$(timeout 900 /tmp/vp -repo $r -prop $p 2>&1); 
  if grep -q "^VIOLATION property=$p" <<<"$out"; then echo "$id $p caught"; else echo "$id $p MISSED $(tail -1 <<<"$out" | cut -c1-200)"; fi
  rm -rf "$r"
}
export -f one
ids="$*"; [ -z "$ids" ] && ids=$(ls /verif/seeded)
printf '%s\n' $ids | xargs -P 3 -I{} bash -c 'one {}'
