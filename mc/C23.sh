# build the calculator, plain, and under AddressSanitizer with fresh variables filled with a pattern
late() {
	local f="-std=c99 -D_ISOC99_SOURCE -w"
	gcc $f -Os -o "$T/calc" "$R"/example/*.c "$T"/lib/*.o -lm || die "the calculator does not compile"
	gcc $f -O1 -g -fsanitize=address -ftrivial-auto-var-init=pattern -o "$T/calc_asan" "$R"/example/*.c "$T"/lib/*.o -lm || die "the calculator does not compile with ASan"
	export CALC_BIN=$T/calc CALC_ASAN=$T/calc_asan
}
