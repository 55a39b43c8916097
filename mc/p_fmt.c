/* C01-C06, C20, C25: codes, conversions, order */
#include "alpha.h"
#include "props.h"

/* one code of a source alphabet: index into UA, or every code when all != 0 */
static inline int64_t src(int ty, int all, uint64_t i)
{
	return all == 2 ? (int64_t)i : all ? nar(tN[ty]) + (int64_t)i : ua_at(&UA[ty], i);
}
static uint64_t nsrc(int ty, int all) { return all ? 1ULL << tN[ty] : UA[ty].n; }
static int allc(int ty, int want32) { return tN[ty] <= 16 || (tN[ty] == 32 && want32); }

/* ---------- C01 ---------- */
static const struct { const char *n; int num, den; } pim[] = { /* name prefix _PI[_OVER] */
	{ "2_PI", 2, 1 }, { "2_PI_OVER_3", 2, 3 }, { "2_PI_OVER_5", 2, 5 }, { "3_PI", 3, 1 }, { "3_PI_OVER_2", 3, 2 },
	{ "3_PI_OVER_4", 3, 4 }, { "3_PI_OVER_5", 3, 5 }, { "4_PI", 4, 1 }, { "4_PI_OVER_3", 4, 3 }, { "4_PI_OVER_5", 4, 5 },
	{ "5_PI", 5, 1 }, { "5_PI_OVER_2", 5, 2 }, { "5_PI_OVER_3", 5, 3 }, { "5_PI_OVER_4", 5, 4 }, { "5_PI_OVER_6", 5, 6 },
	{ "6_PI", 6, 1 }, { "6_PI_OVER_5", 6, 5 }, { "PI", 1, 1 }, { "PI_OVER_2", 1, 2 }, { "PI_OVER_3", 1, 3 },
	{ "PI_OVER_4", 1, 4 }, { "PI_OVER_5", 1, 5 }, { "PI_OVER_6", 1, 6 } };
static int cval(const char *n, Q *v)
{
	for (unsigned k = 0; k < sizeof pim / sizeof *pim; k++)
		if (!strcmp(n, pim[k].n))
			return *v = QPI * pim[k].num / pim[k].den, 1;
	if (!strcmp(n, "GAMMA")) return *v = 0.577215664901532860606512090082402431042159f128, 1;
	if (!strcmp(n, "LB_10")) return *v = log2f128(10), 1;
	if (!strcmp(n, "LB_E")) return *v = 1 / QLN2, 1;
	if (!strcmp(n, "LG_2")) return *v = log10f128(2), 1;
	if (!strcmp(n, "LG_E")) return *v = 1 / QLN10, 1;
	if (!strcmp(n, "LN_10")) return *v = QLN10, 1;
	if (!strcmp(n, "LN_2")) return *v = QLN2, 1;
	if (!strcmp(n, "ONE")) return *v = 1, 1;
	if (!strcmp(n, "PHI")) return *v = (1 + sqrtf128(5)) / 2, 1;
	if (!strncmp(n, "SQUARE_ROOT_", 12)) return *v = sqrtf128(atoi(n + 12)), 1;
	return 0;
}
static void run_const(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	(void)sp;
	EACH(w, i, lo, hi)
	{
		int k = (int)i / NT, ty = (int)i % NT, N = tN[ty];
		int64_t r = K[k].v[ty];
		Q v;
		w->states++, w->trans++, w->cmp++;
		outcome(w, (uint64_t)r);
		note(w, "%s %s = %s", tname[ty], K[k].name, hx(ty, r));
		if (!strcmp(K[k].name, "NAR")) {
			if (r != nar(N))
				fail(w, "%s NaR constant is %s", tname[ty], hx(ty, r));
		} else if (!strcmp(K[k].name, "POSITIVE_MINIMUM")) {
			if (r != 1)
				fail(w, "%s smallest positive is %s", tname[ty], hx(ty, r));
		} else if (!strcmp(K[k].name, "POSITIVE_MAXIMUM")) {
			if (r != maxc(N))
				fail(w, "%s largest positive is %s", tname[ty], hx(ty, r));
		} else if (cval(K[k].name, &v)) {
			Q p = qspos(ty, v, 0);
			if (fabsf128((Q)r - p) > (Q)(N == 64 ? 0.75 : 0.5))
				fail(w, "%s constant %s is %s, exact position %s", tname[ty], K[k].name, hx(ty, r), qs(p));
		}
	}
}
static void run_dec(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int ty = (int)sp->a, N = tN[ty];
	EACH(w, i, lo, hi)
	{
		int64_t t = src(ty, (int)sp->b, i);
		long double x = V[ty].tox(t);
		w->states++, w->trans++, w->cmp++;
		note(w, "%s %s exports %.21Lg", tname[ty], hx(ty, t), x);
		if (t == 0) {
			if (!(x == 0))
				fail(w, "%s 0 exports %Lg", tname[ty], x);
			continue;
		}
		if (t == nar(N)) {
			if (!isnan(x))
				fail(w, "%s NaR exports %Lg", tname[ty], x);
			continue;
		}
		long double e = lval(ty, t);
		if (ISLIN(ty) ? x != e : !(fabsl(x - e) <= 0x1p-56L * fabsl(e))) {
			fail(w, "%s %s exports %.21Lg, value is %.21Lg", tname[ty], hx(ty, t), x, e);
			continue;
		}
		if (!(i & 63) || tN[ty] < 32 || i < UA[ty].nsp) { /* neighbours and negation */
			outcome(w, (uint64_t)t);
			if (t != maxc(N)) {
				long double y = V[ty].tox(t + 1);
				w->trans++, w->cmp++;
				if (!(y > x))
					fail(w, "%s codes %s < %s but values %.21Lg, %.21Lg", tname[ty], hx(ty, t), hx(ty, t + 1), x, y);
			}
			long double z = V[ty].tox(-t);
			w->trans++, w->cmp++;
			if (z != -x)
				fail(w, "%s code %s is %.21Lg but its negation is %.21Lg", tname[ty], hx(ty, t), x, z);
		}
	}
}
void c01(void)
{
	alpha_pb = 20;
	alpha_init(12, 12);
	space((uint64_t)NK * NT, run_const, 0, 0, 0, "constants");
	for (int ty = 0; ty < NT; ty++)
		space(nsrc(ty, allc(ty, thorough)), run_dec, ty, allc(ty, thorough), 0, "%s/decode", tname[ty]);
}

/* ---------- C02 ---------- */
static Q ulpq(Q a, int mant, int emin) /* unit in the last place of the binade of |a| */
{
	int e;
	frexpf128(a, &e);
	e -= mant;
	return scalbnf128(1, e < emin ? emin : e);
}
static void run_exp(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int ty = (int)sp->a, N = tN[ty];
	EACH(w, i, lo, hi)
	{
		int64_t t = src(ty, (int)sp->b, i);
		float f = V[ty].to32(t);
		double d = V[ty].to64(t);
		w->states++, w->trans += 2, w->cmp += 2;
		note(w, "%s %s exports float32 %.9g, float64 %.17g", tname[ty], hx(ty, t), f, d);
		if (t == 0 || t == nar(N)) {
			if (t ? !isnan(f) || !isnan(d) : f != 0 || d != 0)
				fail(w, "%s %s exports %g, %g", tname[ty], t ? "NaR" : "0", f, d);
			continue;
		}
		if (isnan(f) || isnan(d)) {
			fail(w, "%s %s exports NaN", tname[ty], hx(ty, t));
			continue;
		}
		/* cheap acceptance: correctly rounded from the long double value */
		long double e = lval(ty, t);
		outcome(w, (uint64_t)t * 8 + (uint64_t)ty);
		if (f == (float)e && d == (double)e && !!signbit(f) == (t < 0) && !!signbit(d) == (t < 0) && !w->note)
			continue;
		Q v = qval(ty, t), a = fabsf128(v), u, b;
		u = ulpq(fminf128(a, (Q)0x1.fp127), 24, -149);
		b = isinf(f) ? (Q)0x1p128 : fabsf128((Q)f);
		/* beyond the largest finite float the next step is infinity */
		if ((v < 0) != !!signbit(f) || fabsf128(b - fminf128(a, (Q)0x1p128)) > (Q)0.51 * u)
			fail(w, "%s %s exports float32 %.9g, exact value %s", tname[ty], hx(ty, t), f, qs(v));
		u = ulpq(a, 53, -1074);
		b = isinf(d) ? scalbnf128(1, 1024) : fabsf128((Q)d);
		if ((v < 0) != !!signbit(d) || fabsf128(b - a) > (ISLIN(ty) ? (Q)0.51 : (Q)0.6) * u)
			fail(w, "%s %s exports float64 %.17g, exact value %s", tname[ty], hx(ty, t), d, qs(v));
	}
}
void c02(void)
{
	alpha_pb = 20;
	alpha_init(12, 12);
	/* every code of takum32 does not fit the time: its negative codes are left to the alphabet */
	if (thorough)
		space(1ULL << 31, run_exp, T32, 2, 0, "takum32/export-all-positive");
	for (int ty = 0; ty < NT; ty++)
		space(nsrc(ty, allc(ty, thorough && ty != T32)), run_exp, ty, allc(ty, thorough && ty != T32), 0, "%s/export", tname[ty]);
}

/* ---------- C03 ---------- */
static void judge_from(W *w, int ty, long double x, int64_t r, const char *fm)
{
	int N = tN[ty];
	w->trans++, w->cmp++;
	note(w, "%s from %s %.21Lg = %s", tname[ty], fm, x, hx(ty, r));
	if (isnan(x) || isinf(x) || x == 0) {
		if (r != (x == 0 ? 0 : nar(N)))
			fail(w, "%s from %s %Lg = %s", tname[ty], fm, x, hx(ty, r));
		return;
	}
	if (r == 0 || r == nar(N) || (r < 0) != (x < 0)) {
		fail(w, "%s from %s %.21Lg = %s", tname[ty], fm, x, hx(ty, r));
		return;
	}
	if (N < 64 && fabsl((long double)r - lspos(ty, x)) <= 0.499L)
		return;
	Q p = qspos(ty, (Q)x, x < 0);
	if (fabsf128((Q)r - p) > (Q)0.5 + slack(ty))
		fail(w, "%s from %s %.21Lg = %s (%lld), exact position %s", tname[ty], fm, x, hx(ty, r), (long long)r, qs(p));
}
static const uint32_t t14[] = { 0, 1, 0x1fff, 0x2000, 0x2001, 0x3fff, 0x1555, 0x2a3b };
static float f32_at(uint64_t i)
{
	union { uint32_t u; float f; } v;
	v.u = ((uint32_t)(i >> 3) << 14) | t14[i & 7]; /* 18-bit prefix, 8 tails */
	return v.f;
}
static const uint64_t t44[] = { 0, 1, 0x7ffffffffff, 0x80000000000, 0x80000000001, 0xfffffffffff, 0x55555555555, 0xa3b1c5d7e90 };
static double f64_at(uint64_t i, int sh) /* 20-bit (or 22-bit) prefix, 8 tails */
{
	union { uint64_t u; double f; } v;
	v.u = ((i >> 3) << sh) | (t44[i & 7] >> (44 - sh));
	return v.f;
}
/* extended: sign, exponent list, 8 leading fraction bits, 8 tails */
static int xexp(uint64_t k) { return k < 1024 ? (int)k - 512 : (int)((k - 1024) * 1021) - 16382; }
#define NXE (1024 + 33)
static long double fx_at(uint64_t i)
{
	uint64_t tl = i & 7, m = (i >> 3) & 255, k = (i >> 11) >> 1, sg = (i >> 11) & 1;
	uint64_t frac = (1ULL << 63) | (m << 55) | (t44[tl] << 11);
	if (tl == 5)
		frac |= 0x7ff;
	long double x = ldexpl((long double)frac, xexp(k) - 63);
	return sg ? -x : x;
}
static void run_f32(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	EACH(w, i, lo, hi)
	{
		union { uint32_t u; float f; } v;
		v.u = (uint32_t)i;
		float x = sp->b ? v.f : f32_at(i);
		for (int ty = 0; ty < NT; ty++) {
			if (sp->c && ty != sp->a)
				continue;
			int64_t r = V[ty].from32(x);
			outcome(w, (uint64_t)r ^ ((uint64_t)ty << 60));
			judge_from(w, ty, x, r, "float32");
		}
		w->states++;
	}
}
static void run_f64(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	EACH(w, i, lo, hi)
	{
		double x = f64_at(i, (int)sp->b);
		for (int ty = 0; ty < NT; ty++) {
			int64_t r = V[ty].from64(x);
			outcome(w, (uint64_t)r ^ ((uint64_t)ty << 60));
			judge_from(w, ty, x, r, "float64");
		}
		w->states++;
	}
}
static void run_fx(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	(void)sp;
	EACH(w, i, lo, hi)
	{
		long double x = fx_at(i);
		for (int ty = 0; ty < NT; ty++) {
			int64_t r = V[ty].fromx(x);
			outcome(w, (uint64_t)r ^ ((uint64_t)ty << 60));
			judge_from(w, ty, x, r, "extended");
		}
		w->states++;
	}
}
static const long double fspec[] = { 0.0L, -0.0L, 0x1p-16445L, -0x1p-16445L, 0x1p-1074L, -0x1p-1074L, 0x1p-149L, -0x1p-149L, 0x1.fffffep127L,
	-0x1.fffffep127L, 0x1.fffffffffffffp1023L, 0x1.fffffffffffffffep16383L, -0x1.fffffffffffffffep16383L, 0x1p-1022L, 0x1p-126L, 0x1p-16382L };
static void run_fspec(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	(void)sp;
	EACH(w, i, lo, hi)
	{
		int ty = (int)(i % NT), k = (int)(i / NT), n = (int)(sizeof fspec / sizeof *fspec);
		long double x = k < n ? fspec[k] : k == n ? (long double)INFINITY : k == n + 1 ? -(long double)INFINITY : k == n + 2 ? (long double)NAN : -(long double)NAN;
		judge_from(w, ty, x, V[ty].fromx(x), "extended");
		judge_from(w, ty, (double)x, V[ty].from64((double)x), "float64");
		judge_from(w, ty, (float)x, V[ty].from32((float)x), "float32");
		w->states++;
	}
}
/* the value halfway between a code and its successor, rounded to each float
 * format, and its neighbours there */
static void run_mid(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int ty = (int)sp->a, N = tN[ty];
	EACH(w, i, lo, hi)
	{
		int64_t t = src(ty, (int)sp->b, i);
		w->states++;
		if (t == nar(N) || t == maxc(N) || t == 0 || t == -1)
			continue;
		Q m;
		if (N < 64) {
			struct fld f = fields(((uint64_t)t << (64 - N)) | (UINT64_C(1) << (63 - N)));
			Q mm = (Q)f.m59 * (Q)0x1p-59;
			m = ISLIN(ty) ? scalbnf128((f.S ? -2 : 1) + mm, f.S ? -(f.c + 1) : f.c) :
			    (f.S ? -1 : 1) * (Q)expl((long double)(f.S ? -1 : 1) * ((long double)f.c + (long double)mm) / 2);
		} else
			m = ((Q)lval(ty, t) + (Q)lval(ty, t + 1)) / 2;
		float f = (float)m, g;
		double d = (double)m, h;
		long double l = (long double)m, k;
		for (int s = -1; s <= 1; s++) {
			g = s ? nextafterf(f, s * INFINITY) : f;
			h = s ? nextafter(d, s * (double)INFINITY) : d;
			k = s ? nextafterl(l, s * (long double)INFINITY) : l;
			if (N <= 32)
				judge_from(w, ty, g, V[ty].from32(g), "float32");
			judge_from(w, ty, h, V[ty].from64(h), "float64");
			judge_from(w, ty, k, V[ty].fromx(k), "extended");
		}
	}
}
/* floats around numbers the sources name, at every distance */
static void run_litf(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	(void)sp;
	EACH(w, i, lo, hi)
	{
		int k = (int)(i / 256), j = (int)(i % 256), sg = j & 1, up = j & 2, e = j / 4;
		Q x = LQ[k] * (1 + (up ? 1 : -1) * scalbnf128(1, -e - 1));
		if (e == 63)
			x = LQ[k];
		if (sg)
			x = -x;
		w->states++;
		for (int ty = 0; ty < NT; ty++) {
			judge_from(w, ty, (float)x, V[ty].from32((float)x), "float32");
			judge_from(w, ty, (double)x, V[ty].from64((double)x), "float64");
			judge_from(w, ty, (long double)x, V[ty].fromx((long double)x), "extended");
		}
	}
}
void c03(void)
{
	alpha_init(thorough ? 8 : 3, thorough ? -8 : -4);
	space(NT * (sizeof fspec / sizeof *fspec + 4), run_fspec, 0, 0, 0, "special-floats");
	if (thorough) {
		for (int ty = 0; ty < NT; ty++)
			if (tN[ty] <= 32)
				space(1ULL << 32, run_f32, ty, 1, 1, "%s/all-float32", tname[ty]);
	}
	space((uint64_t)nLQ * 256, run_litf, 0, 0, 0, "around-literals");
	space(1u << 21, run_f32, 0, 0, 0, "float32-grid");
	space(thorough ? 1u << 25 : 1u << 23, run_f64, 0, thorough ? 42 : 44, 0, "float64-grid");
	space((uint64_t)NXE << 12, run_fx, 0, 0, 0, "extended-grid");
	for (int ty = 0; ty < NT; ty++)
		space(nsrc(ty, allc(ty, 0)), run_mid, ty, allc(ty, 0), 0, "%s/midpoints", tname[ty]);
}

/* ---------- C04 ---------- */
static void run_rt(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int ty = (int)sp->a, N = tN[ty];
	EACH(w, i, lo, hi)
	{
		int64_t t = src(ty, (int)sp->b, i), r = V[ty].fromx(V[ty].tox(t)), k;
		w->states++, w->trans += 2, w->cmp++;
		outcome(w, (uint64_t)r ^ ((uint64_t)ty << 60));
		note(w, "%s %s -> extended -> %s", tname[ty], hx(ty, t), hx(ty, r));
		k = ty == T64 && t != 0 && t != nar(64) ? 8 : 0;
		if (r != t && (k == 0 || r == 0 || r == nar(N) || (r < 0) != (t < 0) || r - t > k || t - r > k))
			fail(w, "%s %s through extended gives %s", tname[ty], hx(ty, t), hx(ty, r));
		if (N <= 32) {
			r = V[ty].from64(V[ty].to64(t));
			w->trans += 2, w->cmp++;
			if (r != t)
				fail(w, "%s %s through float64 gives %s", tname[ty], hx(ty, t), hx(ty, r));
		}
		if (N <= 16) {
			Q a = t && t != nar(N) ? fabsf128(qval(ty, t)) : 0;
			if (a == 0 || (a > (Q)0x1.0001p-126 && a < (Q)0x1.fffep127)) {
				r = V[ty].from32(V[ty].to32(t));
				w->trans += 2, w->cmp++;
				if (r != t)
					fail(w, "%s %s through float32 gives %s", tname[ty], hx(ty, t), hx(ty, r));
			}
		}
	}
}
static void run_rtf(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	EACH(w, i, lo, hi)
	{
		union { uint32_t u; float f; } v;
		v.u = (uint32_t)i;
		float x = sp->b ? v.f : f32_at(i);
		int64_t r = V[L64].from32(x);
		float y = V[L64].to32(r);
		w->states++, w->trans += 2, w->cmp++;
		outcome(w, (uint64_t)r);
		note(w, "float32 %.9g -> takum_linear64 -> %.9g", x, y);
		if (isfinite(x) ? !(x == y) : !isnan(y))
			fail(w, "float32 %.9g through takum_linear64 gives %.9g", x, y);
	}
}
static void run_rtd(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	EACH(w, i, lo, hi)
	{
		double x = f64_at(i, (int)sp->b);
		w->states++;
		if (!isfinite(x) || fabs(x) <= 0x1p-255 || fabs(x) >= 0x1p255)
			continue;
		double y = V[L64].to64(V[L64].from64(x));
		w->trans += 2, w->cmp++;
		note(w, "float64 %.17g -> takum_linear64 -> %.17g", x, y);
		if (x != y)
			fail(w, "float64 %.17g through takum_linear64 gives %.17g", x, y);
	}
}
void c04(void)
{
	alpha_pb = 20;
	alpha_init(12, 12);
	for (int ty = 0; ty < NT; ty++)
		space(nsrc(ty, allc(ty, thorough)), run_rt, ty, allc(ty, thorough), 0, "%s/round-trip", tname[ty]);
	space(thorough ? 1ULL << 32 : 1u << 21, run_rtf, 0, thorough, 0, "float32-through-linear64");
	space(thorough ? 1u << 25 : 1u << 23, run_rtd, 0, thorough ? 42 : 44, 0, "float64-through-linear64");
}

/* ---------- C05 ---------- */
static int64_t width(int64_t t, int from, int to)
{
	if (t == 0 || t == nar(from))
		return t ? nar(to) : 0;
	if (to >= from)
		return (int64_t)((uint64_t)t << (to - from));
	/* magnitude of the two's complement string, then round it */
	int64_t a = t < 0 ? -t : t;
	int64_t q = rne((i128)(uint64_t)a << (64 - from + 16), to);
	return t < 0 ? -q : q;
}
static void run_wid(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int ty = (int)sp->a, fam = ty & 4, from = tN[ty];
	EACH(w, i, lo, hi)
	{
		int64_t t = sp->b == 2 ? (int64_t)(((uint64_t)ua_at(&UA[fam + 2], i / 6) << 32) |
		                                   ((const uint64_t[]){ 1, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x12345678 })[i % 6])
		                      : src(ty, (int)sp->b, i);
		w->states++;
		for (int k = 0; k < 4; k++) {
			int to = fam + k;
			if (to == ty)
				continue;
			int64_t r = X[to][ty](t), e = width(t, from, tN[to]);
			w->trans++, w->cmp++;
			note(w, "%s %s -> %s %s", tname[ty], hx(ty, t), tname[to], hx(to, r));
			if (r != e)
				fail(w, "%s %s converts to %s %s, expected %s", tname[ty], hx(ty, t), tname[to], hx(to, r), hx(to, e));
			if (tN[to] > from && (!(i & 63) || from < 32)) {
				int64_t b = X[ty][to](r);
				w->trans++, w->cmp++;
				outcome(w, (uint64_t)r ^ ((uint64_t)to << 60));
				if (b != t)
					fail(w, "%s %s widened to %s and narrowed back gives %s", tname[ty], hx(ty, t), tname[to], hx(ty, b));
			}
		}
	}
}
void c05(void)
{
	alpha_pb = 20;
	alpha_init(12, 12);
	for (int ty = 0; ty < NT; ty++) {
		space(nsrc(ty, allc(ty, thorough)), run_wid, ty, allc(ty, thorough), 0, "%s/widths", tname[ty]);
		if (tN[ty] == 64)
			space(UA[ty - 1].n * 6, run_wid, ty, 2, 0, "%s/widths-at-bit-32", tname[ty]);
	}
}

/* ---------- C06 ---------- */
static void run_fam(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int ty = (int)sp->a, N = tN[ty], other = 4 - (ty & 4);
	EACH(w, i, lo, hi)
	{
		int64_t t = src(ty, (int)sp->b, i);
		w->states++;
		long double x = t == 0 || t == nar(N) ? 0 : lval(ty, t);
		for (int k = 0; k < 4; k++) {
			int to = other + k;
			int64_t r = X[to][ty](t);
			w->trans++, w->cmp++;
			outcome(w, (uint64_t)r ^ ((uint64_t)to << 60));
			note(w, "%s %s -> %s %s", tname[ty], hx(ty, t), tname[to], hx(to, r));
			if (t == 0 || t == nar(N)) {
				if (r != (t ? nar(tN[to]) : 0))
					fail(w, "%s %s converts to %s %s", tname[ty], hx(ty, t), tname[to], hx(to, r));
				continue;
			}
			if (r == 0 || r == nar(tN[to]) || (r < 0) != (t < 0)) {
				fail(w, "%s %s converts to %s %s", tname[ty], hx(ty, t), tname[to], hx(to, r));
				continue;
			}
			if (tN[to] < 64 && fabsl((long double)r - lspos(to, x)) <= 0.499L)
				continue;
			Q v = qval(ty, t), p = qspos(to, v, v < 0), l = p, h = p, sl = (Q)0.5 + slack(to);
			Q d = ty == T64 || (!ISLIN(ty) && to == L64) ? (Q)0x1p-56 : 0;
			if (d != 0) {
				Q a = qspos(to, v * (1 - d), v < 0), b = qspos(to, v * (1 + d), v < 0);
				l = a < b ? a : b;
				h = a < b ? b : a;
			}
			if ((Q)r < l - sl || (Q)r > h + sl)
				fail(w, "%s %s converts to %s %s (%lld), exact position %s", tname[ty], hx(ty, t), tname[to], hx(to, r), (long long)r, qs(p));
		}
	}
}
void c06(void)
{
	alpha_pb = thorough ? 22 : 20;
	alpha_init(12, thorough ? 10 : 6);
	for (int ty = 0; ty < NT; ty++)
		space(nsrc(ty, allc(ty, 0)), run_fam, ty, allc(ty, 0), 0, "%s/other-family", tname[ty]);
}

/* ---------- C20 ---------- */
static void run_bits(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int ty = (int)sp->a, N = tN[ty];
	f1 ab = U[U_absolute].w[ty], sg = U[U_sign].w[ty];
	EACH(w, i, lo, hi)
	{
		int64_t t = src(ty, (int)sp->b, i), a = ab(t), s = sg(t), e;
		int p = V[ty].prec(t), q;
		w->states++, w->trans += 3, w->cmp += 3;
		note(w, "%s %s: |.| %s sign %s precision %d", tname[ty], hx(ty, t), hx(ty, a), hx(ty, s), p);
		e = t == nar(N) ? t : t < 0 ? -t : t;
		if (a != e)
			fail(w, "%s_absolute(%s) = %s", tname[ty], hx(ty, t), hx(ty, a));
		e = t == nar(N) ? t : t == 0 ? 0 : t < 0 ? -onec(N) : onec(N);
		if (s != e)
			fail(w, "%s_sign(%s) = %s", tname[ty], hx(ty, t), hx(ty, s));
		q = t == 0 || t == nar(N) ? (N < 12 ? 0 : N - 12) : precbits(N, t);
		if (p != q)
			fail(w, "%s_precision(%s) = %d, expected %d", tname[ty], hx(ty, t), p, q);
		if (N < 32)
			outcome(w, (uint64_t)(a * 64 + p) ^ ((uint64_t)ty << 60));
		else
			outcome(w, (uint64_t)(p + (s > 0) * 64 + (s < 0) * 128) ^ ((uint64_t)ty << 60));
	}
}
void c20(void)
{
	alpha_pb = 20;
	alpha_init(12, 12);
	for (int ty = 0; ty < NT; ty++)
		space(nsrc(ty, allc(ty, thorough)), run_bits, ty, allc(ty, thorough), 0, "%s/bits", tname[ty]);
}

/* ---------- C25 ---------- */
static int nanlt(long double a, long double b) { return a > b; }
static void run_mono(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int ty = (int)sp->a, N = tN[ty];
	EACH(w, i, lo, hi)
	{
		int64_t t = src(ty, (int)sp->b, i);
		w->states++;
		if (t == nar(N) || t == maxc(N))
			continue;
		/* the next code, and the same tail under the next prefix */
		for (int far = 0; far <= (N > 16 && !sp->b); far++) {
			int64_t s = far ? (int64_t)((uint64_t)t + (UINT64_C(1) << (N - UA[ty].pb))) : t + 1;
			if (far && (s <= t || s > maxc(N)))
				continue;
			for (int k = 0; k < NT; k++) {
				if (k == ty)
					continue;
				int64_t a = X[k][ty](t), b = X[k][ty](s);
				w->trans += 2, w->cmp++;
				outcome(w, (uint64_t)a ^ ((uint64_t)k << 60));
				note(w, "%s %s, %s -> %s %s, %s", tname[ty], hx(ty, t), hx(ty, s), tname[k], hx(k, a), hx(k, b));
				if (a > b)
					fail(w, "%s %s < %s but converted to %s: %s > %s", tname[ty], hx(ty, t), hx(ty, s), tname[k], hx(k, a), hx(k, b));
			}
			w->trans += 6, w->cmp += 3;
			if (nanlt(V[ty].to32(t), V[ty].to32(s)) || nanlt(V[ty].to64(t), V[ty].to64(s)) || nanlt(V[ty].tox(t), V[ty].tox(s)))
				fail(w, "%s %s < %s but an export to a float reverses them", tname[ty], hx(ty, t), hx(ty, s));
		}
	}
}
static const struct { int u, kind; } mf[] = { /* kind 1 rising, 2 rising on t>0, 3 rising on t>-1, 4 falling on either side of 0, 5 rising on t>=0 */
	{ U_square_root, 5 }, { U_ln, 2 }, { U_lb, 2 }, { U_lg, 2 }, { U_ln_1_plus, 3 }, { U_lb_1_plus, 3 }, { U_lg_1_plus, 3 },
	{ U_exp, 1 }, { U_2_raised, 1 }, { U_10_raised, 1 }, { U_arctan, 1 }, { U_arctan_over_pi, 1 }, { U_arsinh, 1 }, { U_sinh, 1 },
	{ U_tanh, 1 }, { U_inversion, 4 } };
static void run_monof(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int ty = (int)sp->a, N = tN[ty], kind = mf[sp->b].kind;
	f1 f = U[mf[sp->b].u].w[ty];
	EACH(w, i, lo, hi)
	{
		int64_t t = src(ty, (int)sp->c, i);
		w->states++;
		if (t == nar(N) || t == maxc(N) || (kind == 2 && t <= 0) || (kind == 5 && t < 0) || (kind == 3 && t <= -onec(N)) ||
		    (kind == 4 && (t == 0 || t == -1)))
			continue;
		for (int far = 0; far <= (N > 16 && !sp->c); far++) {
			int64_t s = far ? (int64_t)((uint64_t)t + (UINT64_C(1) << (N - UA[ty].pb))) : t + 1;
			if (far && (s <= t || s > maxc(N) || (kind == 4 && t < 0 && s >= 0)))
				continue;
			int64_t a = f(t), b = f(s);
			w->trans += 2, w->cmp++;
			outcome(w, (uint64_t)a ^ ((uint64_t)(sp->b * 8 + ty) << 57));
			note(w, "%s_%s(%s) = %s, (%s) = %s", tname[ty], U[mf[sp->b].u].name, hx(ty, t), hx(ty, a), hx(ty, s), hx(ty, b));
			if (kind == 4 ? a < b : a > b)
				fail(w, "%s_%s(%s) = %s but at the larger %s it is %s", tname[ty], U[mf[sp->b].u].name, hx(ty, t), hx(ty, a), hx(ty, s), hx(ty, b));
		}
	}
}
static void run_monoi(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	EACH(w, i, lo, hi)
	{
		long double x = sp->a == 0 ? (long double)f32_at(i) : sp->a == 1 ? (long double)f64_at(i, 44) : fx_at(i);
		w->states++;
		if (!isfinite(x))
			continue;
		for (int ty = 0; ty < NT; ty++) {
			int64_t a, b;
			long double y;
			if (sp->a == 0)
				y = nextafterf((float)x, INFINITY), a = V[ty].from32((float)x), b = V[ty].from32((float)y);
			else if (sp->a == 1)
				y = nextafter((double)x, (double)INFINITY), a = V[ty].from64((double)x), b = V[ty].from64((double)y);
			else
				y = nextafterl(x, (long double)INFINITY), a = V[ty].fromx(x), b = V[ty].fromx(y);
			if (isinf(y))
				continue;
			w->trans += 2, w->cmp++;
			note(w, "%s from %.21Lg = %s, next float = %s", tname[ty], x, hx(ty, a), hx(ty, b));
			if (a > b)
				fail(w, "%s from %.21Lg = %s but from the next float %s", tname[ty], x, hx(ty, a), hx(ty, b));
		}
	}
}
void c25(void)
{
	alpha_init(thorough ? 8 : 6, thorough ? -8 : -6);
	for (int ty = 0; ty < NT; ty++)
		space(nsrc(ty, allc(ty, 0)), run_mono, ty, allc(ty, 0), 0, "%s/conversions-order", tname[ty]);
	for (int ty = 0; ty < NT; ty++)
		for (unsigned k = 0; k < sizeof mf / sizeof *mf && tN[ty] <= 32; k++)
			space(nsrc(ty, allc(ty, 0)), run_monof, ty, (long)k, allc(ty, 0), "%s_%s/order", tname[ty], U[mf[k].u].name);
	space(1u << 21, run_monoi, 0, 0, 0, "float32-import-order");
	space(1u << 23, run_monoi, 1, 0, 0, "float64-import-order");
	space((uint64_t)NXE << 12, run_monoi, 2, 0, 0, "extended-import-order");
}
