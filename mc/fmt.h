/*
 * Reference model of the takum bit formats.  Written from the format
 * definition alone (S D RRR C M), on purpose boring; shares no code with
 * the library under test.
 *
 * Everything is derived from the 64-bit left-aligned form: an N-bit takum
 * is the 64-bit takum whose N leading bits it has and whose other bits are
 * zero, and rounding to N bits is rounding of that bit string.
 */
#ifndef FMT_H
#define FMT_H
#define _GNU_SOURCE
#include <float.h>
#include <math.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef _Float128 Q;
typedef __int128 i128;

/* type index: 0..3 logarithmic 8/16/32/64, 4..7 linear 8/16/32/64 */
enum { T8, T16, T32, T64, L8, L16, L32, L64, NT };
extern const int tN[NT];
extern const char *const tname[NT];
#define ISLIN(ty) ((ty) >= 4)
static inline int64_t nar(int N) { return INT64_MIN >> (64 - N); }
static inline int64_t maxc(int N) { return (int64_t)((UINT64_C(1) << (N - 1)) - 1); }
static inline int64_t onec(int N) { return (int64_t)(UINT64_C(1) << (N - 2)); }
static inline int64_t sext(uint64_t u, int N) { return (int64_t)(u << (64 - N)) >> (64 - N); }

/* fields of the left-aligned 64-bit string: characteristic c, mantissa with
 * 59 fractional bits, sign S */
struct fld {
	int S, c;
	uint64_t m59;
};
static inline struct fld fields(uint64_t u)
{
	struct fld f;
	int D = (int)((u >> 62) & 1), R = (int)((u >> 59) & 7), r = D ? R : 7 - R;
	uint64_t C = (u >> (59 - r)) & ((UINT64_C(1) << r) - 1);
	f.S = (int)(u >> 63);
	f.c = D ? (1 << r) - 1 + (int)C : -(1 << (r + 1)) + 1 + (int)C;
	f.m59 = (u << r) & ((UINT64_C(1) << 59) - 1);
	return f;
}
static inline struct fld fieldsN(int N, int64_t t) { return fields((uint64_t)t << (64 - N)); }
/* number of mantissa bits of an N bit takum (0 if the string ends earlier) */
static inline int precbits(int N, int64_t t)
{
	uint64_t u = (uint64_t)t << (64 - N);
	int D = (int)((u >> 62) & 1), R = (int)((u >> 59) & 7), r = D ? R : 7 - R;
	int p = N - 5 - r;
	return p < 0 ? 0 : p;
}
/* (-1)^S (c+m) in units of 2^-59: the logarithmic value l = 2 ln|x| */
static inline i128 lfix(int N, int64_t t)
{
	struct fld f = fieldsN(N, t);
	i128 v = (i128)f.c * ((i128)1 << 59) + f.m59;
	return f.S ? -v : v;
}

/* position in the 64-bit code space, in units of 2^-16 codes, of the positive
 * number with characteristic/mantissa sum v * 2^-60 (exact) */
static inline i128 pos_fix60(i128 v)
{
	i128 one = (i128)1 << 60;
	if (v >= 255 * one)
		return (i128)1 << 79;
	if (v < -255 * one)
		return 0;
	int c = (int)(v >= 0 ? v / one : -((-v + one - 1) / one));
	i128 m = v - (i128)c * one;
	int D = c >= 0, r = 31 - __builtin_clz((unsigned)(D ? c + 1 : -c));
	int C = D ? c - ((1 << r) - 1) : c + (1 << (r + 1)) - 1, R = D ? r : 7 - r;
	uint64_t head = ((uint64_t)D << 62) | ((uint64_t)R << 59) | ((uint64_t)C << (59 - r));
	return ((i128)head << 16) + (m << 16 >> (r + 1));
}
/* round a position (2^-16 64-bit codes) to N bits: nearest, ties to even,
 * saturating to 1..max */
static inline int64_t rne(i128 pos, int N)
{
	int sh = 64 - N + 16;
	i128 q = pos >> sh, rem = pos & (((i128)1 << sh) - 1), half = (i128)1 << (sh - 1);
	if (rem > half || (rem == half && (q & 1)))
		q++;
	if (q < 1)
		q = 1;
	if (q > maxc(N))
		q = maxc(N);
	return (int64_t)q;
}

Q qval(int ty, int64_t t);                /* exact value (t not 0/NaR) */
Q qpos(int lin, int N, Q y);              /* unclamped position of |y|, in N-bit codes */
Q qspos(int ty, Q y, int neg);            /* clamped signed position of a nonzero y */
long double lval(int ty, int64_t t);      /* value, long double precision */
long double lspos(int ty, long double y); /* clamped signed position (N<=32) */

long double lerr64(int ty, long double y, int64_t r);

/* slack on top of half a unit, in codes, and argument perturbation */
static inline Q slack(int ty) { return tN[ty] == 64 ? (Q)0.25 : (Q)0x1p-16; }
static inline Q delta(int ty, int64_t t)
{
	if (!ISLIN(ty))
		return (t == onec(tN[ty]) || t == -onec(tN[ty])) ? 0 : (Q)0x1p-56;
	return ty == L64 ? (Q)0x1p-60 : 0;
}
#endif
