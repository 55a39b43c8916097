#!/bin/bash
# ./check.sh ID quick|thorough            run one property's check
# ./check.sh ID quick|thorough --replay F show a recorded violation again
# Builds everything from /repo's working tree in a scratch directory.
set -u
V=$(cd "$(dirname "$0")" && pwd); R=${REPO:-/repo}
id=$1; tier=${2:-quick}
T=$(mktemp -d "${TMPDIR:-/tmp}/mc.XXXXXX") || exit 2
trap 'rm -rf "$T"' EXIT
mkdir -p "$V/evidence" "$V/replays"
J=$(nproc)
die() { echo "check error: $*" >&2; exit 2; }
cc_repo() { # outdir flags...: compile every library source with the repository's own flags
	local o=$1; shift; mkdir -p "$o"
	ls "$R"/src/*.c | xargs -P "$J" -I{} sh -c 'gcc -std=c99 -D_ISOC99_SOURCE -Os -w "$@" -c "$0" -o "'"$o"'/$(basename "$0" .c).o"' {} "$@" || die "the library does not compile"
}
# numbers the sources name: extra operands for the alphabets, nothing else
python3 "$V/tools/lits.py" "$R" > "$T/lits" 2>/dev/null; export MC_LITS=$T/lits
[ -f "$V/mc/$id.sh" ] && . "$V/mc/$id.sh"
cc_repo "$T/lib" ${LIBFLAGS:-} &
ls "$V"/mc/{eng,fmt,lib,orc,alpha,p_un,p_fmt,p_two,p_calc,call,p_ub,p_pure,main}.c ${EXTRA:-} | xargs -P "$J" -I{} sh -c 'gcc -std=gnu11 -O2 -w -I"'"$R"'" -c "$0" -o "'"$T"'/$(basename "$0" .c).o"' {} || die "harness does not compile"
wait $! || exit 2
gcc ${LDF:-} -rdynamic -o "$T/mc" "$T"/*.o "$T"/lib/*.o -lm -ldl -lpthread || die link
[ "$(type -t late)" = function ] && late
if [ "${3:-}" = --replay ]; then
	"$T/mc" "$id" "$tier" --replay "$(sed -n 's/^space=//p' "$4")" "$(sed -n 's/^index=//p' "$4")" "$V/known_findings.txt"
	exit $?
fi
"$T/mc" "$id" "$tier" "${JOBS:-$J}" "$V/known_findings.txt" "$V/evidence/$id.json" "$V/replays"
rc=$?
[ $rc -le 1 ] || die "engine ended with $rc"
exit $rc
