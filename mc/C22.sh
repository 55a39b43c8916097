# the library as shared objects: as built, and with every memory access hooked
late() {
	cc_repo "$T/so_plain" -fPIC
	cc_repo "$T/so_tsan" -fPIC -fsanitize=thread
	gcc -std=gnu11 -O1 -w -fPIC -I"$R" -c "$V/mc/lib.c" -o "$T/tables.o" || die tables
	gcc -shared -Wl,-Bsymbolic -Wl,-z,now,-z,relro -o "$T/plain.so" "$T/so_plain"/*.o "$T/tables.o" -lm || die "shared plain"
	gcc -shared -Wl,-Bsymbolic -o "$T/tsan.so" "$T/so_tsan"/*.o "$T/tables.o" -lm || die "shared tsan"
	rm -f "$T/tables.o"
	export PURE_SO=$T/plain.so TSAN_SO=$T/tsan.so
}
