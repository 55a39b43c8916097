#include "props.h"
#define UN "every index of every listed space is one operand code: all codes for 8/16 bits; for 32/64 bits every 16- to 20-bit (thorough: 20- to 23-bit) prefix x fixed tails, and neighbourhoods of special codes; the called code is /repo/src compiled for this run"
#define TWO "every index is one operand pair: all pairs for 8 bits (16 bits where listed all-pairs), nested alphabets S/M/L crossed, and 64 relations of the second operand to the first (equal, negated, reciprocal, each +-k, shifted by powers of two, specials)"
#define ORA "the oracle trusts _Float128 libm to about 2^-110, the format model in mc/fmt.c, and the C compiler; codes outside the listed alphabets of 32/64-bit types are not visited"
const struct pdef P[] = {
	{ "C01", c01, UN, ORA }, { "C02", c02, UN, ORA },
	{ "C03", c03, "every index is one float: grids over all sign/exponent/leading-fraction bits x tails, special floats, and for every code of the alphabet the float nearest the midpoint to its successor and that float's neighbours in all formats; thorough: every float32", ORA },
	{ "C04", c04, UN, ORA }, { "C05", c05, "every code of every 8/16/32-bit type, 64-bit alphabet with tails around bits 16 and 32, to the three other widths and back", "the bit-string rounding model in mc/p_fmt.c; 64-bit codes outside the alphabet are not visited" },
	{ "C06", c06, UN, ORA }, { "C07", c07, UN "; " TWO, ORA }, { "C08", c08, UN "; " TWO, "the integer model in mc/fmt.c and mc/p_two.c (no floating point)" },
	{ "C09", c09, UN "; " TWO, ORA }, { "C10", c10, TWO, ORA }, { "C11", c11, TWO, ORA }, { "C12", c12, UN, ORA }, { "C13", c13, UN, ORA },
	{ "C14", c14, UN, ORA }, { "C15", c15, UN, ORA }, { "C16", c16, UN, ORA }, { "C17", c17, TWO "; integral exponents", ORA },
	{ "C18", c18, "codes x signed 64-bit integers: all 8/16-bit codes x 80 integers of every size, parity and sign; all 8-bit codes x all integers of 16 (thorough 22) bits; dense code alphabets x small integers; landmarks x [-1024,1023]", ORA },
	{ "C19", c19, "codes x signed 64-bit integers: all 8/16-bit codes x 80 integers of every size, parity and sign; all 8-bit codes x all integers of 16 (thorough 22) bits; dense code alphabets x small integers; landmarks x [-1024,1023]", ORA },
	{ "C20", c20, "every code of every 8/16/32-bit type; 64-bit alphabet", "bit model in mc/fmt.h; 64-bit codes outside the alphabet are not visited" },
	{ "C21", c21, UN "; " TWO "; each visit makes the two calls a law relates and compares their codes", "codes outside the alphabets are not visited; no numeric oracle" },
	{ "C22", c22, "every index is one exploration: (environment) one call of every public function with four states of errno, floating-point flags and uninitialised stack (and in two locales), with writable library memory compared before and after; (history) sequences of calls compared with fresh-process results; (schedules) all interleavings of 2 threads with up to 2 preemptions and 3 threads with 1, of the same function and of different functions, run on the real code under a controlled scheduler that switches at function entry/exit and at every non-stack memory access", "sequential consistency; schedules beyond the preemption bound and arguments outside the alphabets are not visited" },
	{ "C23", c23, "every index is one run of the real calculator program (plain, and under AddressSanitizer where named) on one session; sessions enumerate every token sequence to depth 3 (thorough 4) over 29 tokens in all 8 types, every operator x 29 x 29 literals x 8 types, every operator on registers made in another type, every line sequence to depth 5 (thorough 6) over 14 lines, 0..119 results before reading every register, every number-like token to 4 (thorough 5) characters of a 15-character alphabet, and 16 line shapes x 500 sizes; every line of output and every error line is compared with the reference stack machine", "the reference machine calls the library for function results (those are judged by C01-C21); tokens, literals and lines outside the alphabets are not visited" },
	{ "C24", c24, "every index is one call of one of the public functions (8 types x 52 unary, 8 binary, 2 integer-argument, 6 float conversions, precision, 7 type conversions), made in a build with UBSan (including float-cast-overflow and bounds) and ASan and in two builds that fill uninitialised stack variables with different patterns; arguments: all 8/16-bit codes, prefix alphabets of wide codes, landmark pairs, integers to +-2^63, floats of every sign and exponent", "only executed undefined behaviour the sanitizers of gcc 13 know is seen; arguments outside the alphabets are not visited" },
	{ "C25", c25, "neighbouring codes (t, t+1) and (t, same tail under the next prefix) of the unary alphabet; neighbouring floats of the float grids", "codes outside the alphabets are not visited; no numeric oracle" },
};
const int NP = sizeof P / sizeof *P;
