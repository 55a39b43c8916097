#include "fmt.h"
const int tN[NT] = { 8, 16, 32, 64, 8, 16, 32, 64 };
const char *const tname[NT] = { "takum8", "takum16", "takum32", "takum64",
	"takum_linear8", "takum_linear16", "takum_linear32", "takum_linear64" };

Q qval(int ty, int64_t t)
{
	struct fld f = fieldsN(tN[ty], t);
	Q m = (Q)f.m59 * (Q)0x1p-59;
	if (ISLIN(ty)) {
		int e = f.S ? -(f.c + 1) : f.c;
		return scalbnf128((f.S ? -2 : 1) + m, e);
	}
	Q l = (f.S ? -1 : 1) * (f.c + m);
	return (f.S ? -1 : 1) * expf128(l / 2);
}
long double lval(int ty, int64_t t)
{
	struct fld f = fieldsN(tN[ty], t);
	long double m = ldexpl((long double)f.m59, -59);
	if (ISLIN(ty)) {
		int e = f.S ? -(f.c + 1) : f.c;
		return ldexpl((f.S ? -2 : 1) + m, e);
	}
	long double l = (f.S ? -1 : 1) * (f.c + m);
	return (f.S ? -1 : 1) * expl(l / 2);
}
static inline int regime(int c, int *D, int *R, int *C)
{
	*D = c >= 0;
	int r = 31 - __builtin_clz((unsigned)(*D ? c + 1 : -c));
	*C = *D ? c - ((1 << r) - 1) : c + (1 << (r + 1)) - 1;
	*R = *D ? r : 7 - r;
	return r;
}
Q qpos(int lin, int N, Q y)
{
	Q v;
	if (y < 0)
		y = -y;
	if (isinf(y))
		return scalbnf128(1, N - 1);
	if (y == 0)
		return 0;
	if (lin) {
		int h;
		Q g = frexpf128(y, &h);
		if (h - 1 >= 255)
			return scalbnf128(1, N - 1);
		if (h - 1 < -255)
			return 0;
		v = (h - 1) + (2 * g - 1);
	} else {
		v = 2 * logf128(y);
	}
	if (v >= 255)
		return scalbnf128(1, N - 1);
	if (v < -255)
		return 0;
	int c = (int)floorf128(v), D, R, C, r = regime(c, &D, &R, &C);
	Q m = v - c;
	Q code = (Q)(((uint64_t)D << 62) | ((uint64_t)R << 59) | ((uint64_t)C << (59 - r))) +
	         m * (Q)(UINT64_C(1) << (59 - r));
	return scalbnf128(code, N - 64);
}
Q qspos(int ty, Q y, int neg)
{
	int N = tN[ty];
	Q p = qpos(ISLIN(ty), N, y), mx = (Q)maxc(N);
	if (p < 1)
		p = 1;
	if (p > mx)
		p = mx;
	return neg ? -p : p;
}
long double lspos(int ty, long double y)
{
	int N = tN[ty], neg = y < 0;
	long double v, p, mx = (long double)maxc(N);
	if (neg)
		y = -y;
	if (isinf(y)) {
		p = mx;
	} else {
		if (ISLIN(ty)) {
			int h;
			long double g = frexpl(y, &h);
			v = h - 1 >= 255 ? 255 : h - 1 < -255 ? -256 : (h - 1) + (2 * g - 1);
		} else {
			v = 2 * logl(y);
		}
		if (v >= 255) {
			p = mx;
		} else if (v < -255) {
			p = 1;
		} else {
			int c = (int)floorl(v), D, R, C, r = regime(c, &D, &R, &C);
			p = ldexpl((long double)(((uint64_t)D << 62) | ((uint64_t)R << 59) |
			                         ((uint64_t)C << (59 - r))) +
			                   ldexpl(v - c, 59 - r),
			           N - 64);
			if (p < 1)
				p = 1;
			if (p > mx)
				p = mx;
		}
	}
	return neg ? -p : p;
}

/* r - position(y) for the 64-bit types, accurate to a small fraction of a
 * code (the integer and fractional parts are subtracted separately); a large
 * value if the signs differ or y is out of range */
long double lerr64(int ty, long double y, int64_t r)
{
	long double v, m;
	int c;
	if ((y < 0) != (r < 0) || y == 0 || isnan(y) || isinf(y) || r == INT64_MIN)
		return 1e30L;
	if (y < 0)
		y = -y, r = -r;
	if (ISLIN(ty)) {
		int h;
		long double g = frexpl(y, &h);
		c = h - 1, m = 2 * g - 1;
		if (c < -255 || c > 254)
			return 1e30L;
	} else {
		v = 2 * logl(y);
		if (!(v >= -255 && v < 255))
			return 1e30L;
		c = (int)floorl(v), m = v - c;
	}
	int D, R, C, k = regime(c, &D, &R, &C);
	int64_t head = (int64_t)(((uint64_t)D << 62) | ((uint64_t)R << 59) | ((uint64_t)C << (59 - k)));
	return (long double)(r - head) - ldexpl(m, 59 - k);
}
