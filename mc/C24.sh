# the library under UBSan and ASan inside the harness, and two stack-fill builds beside it
LIBFLAGS="-g -fsanitize=undefined,float-cast-overflow,address -fno-sanitize-recover=all -fno-sanitize=float-divide-by-zero"
LDF="-fsanitize=address,undefined"
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:handle_segv=0:handle_sigill=0 UBSAN_OPTIONS=halt_on_error=1:print_stacktrace=0
late() {
	local k
	for k in zero pattern; do
		cc_repo "$T/so_$k" -fPIC -ftrivial-auto-var-init=$k
		gcc -std=gnu11 -O1 -w -fPIC -I"$R" -c "$V/mc/lib.c" -o "$T/so_$k/tables.o" || die tables
		gcc -shared -Wl,-Bsymbolic -o "$T/$k.so" "$T/so_$k"/*.o -lm || die "shared $k"
	done
	export UB_ZERO=$T/zero.so UB_PAT=$T/pattern.so
}
