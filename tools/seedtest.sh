#!/bin/bash
# tools/seedtest.sh ID [notest]: confirm a planted change in scratch copies of
# /repo: it applies, builds, passes the stable tests, and its demo tells it apart.
V=$(cd "$(dirname "$0")/.." && pwd); id=$1; S=/tmp/seed_$id; C=/tmp/seedc_$id
rm -rf "$S" "$C"; cp -a /repo "$S"; cp -a /repo "$C"
fix() { sed "s#cd /repo#cd $1#; s#/repo/_build#$1/_build#g" "/opt/vp/$2"; }
git -C "$S" apply "$V/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
fix "$S" build.sh | bash > "$S.log" 2>&1 || { echo "$id: does not build"; tail -5 "$S.log"; rm -rf "$S" "$C"; exit 1; }
rm -f "$S.bin"; fix "$C" build.sh | bash > /dev/null 2>&1
mkdir -p /tmp/seedd_$id; cp "$V/seeded/$id/"* /tmp/seedd_$id/; rm -f /tmp/seedd_$id/{patch.diff,meta.json}
(cd "$C" && timeout 300 bash /tmp/seedd_$id/demo.sh); c=$?
(cd "$S" && timeout 300 bash /tmp/seedd_$id/demo.sh); p=$?
t=skipped
if [ "${2:-}" != notest ]; then
	# test programs that come out byte for byte as in the unchanged tree cannot fail: leave them out
	tests=$(cd "$S" && make -pnq CC=gcc 2>/dev/null | sed -n 's/^TEST = *//p' | head -1)
	for w in "$S" "$C"; do (cd "$w"; make -j8 -k CC=gcc $tests > /dev/null 2>&1; for t in $tests; do strip -o "$w.bin" "$t"; sha256sum < "$w.bin" | sed "s#-#$t#"; done > "$w.sum"; rm -f "$w.bin"); done
	same=$(comm -12 <(sort "$S.sum") <(sort "$C.sum") | awk '{print $2}' | tr '\n' ' ')
	rm -f "$S.sum" "$C.sum"
	fix "$S" test.sh | sed "s#^\ttimeout --foreground#&#; s#^run() {#&\n\tcase \" $same \" in *\" \$1 \"*) exit 0;; esac#" > "$S.test.sh"; SAME="$same" bash "$S.test.sh" "$S.json" > /dev/null 2>&1
	t=$(SAME="$same" python3 - "$S.json" <<'P'
import json, os, sys
same = set(os.environ['SAME'].split())
b = json.load(open('/opt/vp/BASELINE.json')); r = json.load(open(sys.argv[1]))
k = [x for x in b if isinstance(b[x], list)]
st = b.get('stable') or b[k[0]]
m = [x for x in st if x not in set(r['passed']) and x.split('::')[0] not in same]
print('pass' if not m else 'FAIL %d %s' % (len(m), m[:3]))
P
)
fi
echo "$id: demo clean=$c patched=$p tests=$t"
rm -rf "$S" "$C" "$S.log" "$S.json" "$S.test.sh" "/tmp/seedd_$id"
