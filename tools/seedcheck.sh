#!/bin/bash
# tools/seedcheck.sh ID [CHECK...]: run checks (default: the seed's own property)
# against a scratch copy of /repo with the planted change
V=$(cd "$(dirname "$0")/.." && pwd); id=$1; shift
c=${*:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
S=/tmp/sc_$id; rm -rf "$S"; cp -a /repo "$S"; git -C "$S" apply "$V/seeded/$id/patch.diff" || exit 1
for k in $c; do
	cp "$V/evidence/$k.json" "/tmp/sc_$id.ev" 2>/dev/null
	s=$SECONDS
	o=$(REPO=$S "$V/check.sh" "$k" "${TIER:-quick}" 2>&1); r=$?
	echo "$id $k rc=$r $((SECONDS-s))s $(echo "$o" | grep -m1 VIOLATION | cut -c1-200) $(echo "$o" | grep -m1 -i 'fail\|error\|: ' | cut -c1-160)"
	cp "/tmp/sc_$id.ev" "$V/evidence/$k.json" 2>/dev/null
done
rm -rf "$S" "/tmp/sc_$id.ev"
