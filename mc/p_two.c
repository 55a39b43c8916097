/* C07-C11, C17-C19, C21: pairs of operands, integers, relations between calls */
#include "alpha.h"
#include "props.h"

#define NREL 64
/* the second operand related to the first in the k-th way */
static int64_t rel(int N, int64_t t, int k)
{
	uint64_t u = (uint64_t)t, top = UINT64_C(1) << (N - 1), inv = (u ^ (top - 1)) + 1;
	static const int64_t d[] = { 0, 1, -1, 2, -2, 3, -3, 17, -17, 255, -255 };
	if (k < 11)
		return sext(u + (uint64_t)d[k], N);
	if (k < 22)
		return sext(0 - u + (uint64_t)d[k - 11], N);
	if (k < 27)
		return sext(inv + (uint64_t)d[k - 22], N);
	if (k < 30)
		return sext(0 - inv + (uint64_t)d[k - 27], N);
	switch (k) {
	case 30: return 0;
	case 31: return nar(N);
	case 32: return onec(N);
	case 33: return -onec(N);
	case 34: return onec(N) + 1;
	case 35: return onec(N) - 1;
	case 36: return 1;
	case 37: return -1;
	case 38: return maxc(N);
	case 39: return -maxc(N);
	}
	/* shifted by a power of two on the code axis, either direction and sign */
	k -= 40;
	int j = (k / 4) * (N - 2) / 6 + 1;
	uint64_t v = (k & 1) ? u + (UINT64_C(1) << j) : u - (UINT64_C(1) << j);
	return sext((k & 2) ? 0 - v : v, N);
}
/* exact rounding model of the logarithmic product/quotient */
static int64_t logprod(int ty, int64_t a, int64_t b, int div)
{
	int N = tN[ty];
	if (a == nar(N) || b == nar(N) || (div && b == 0))
		return nar(N);
	if (a == 0 || b == 0)
		return 0;
	i128 la = lfix(N, a), lb = lfix(N, b), l = div ? la - lb : la + lb;
	int64_t q = rne(pos_fix60(l * 2), N);
	return (a < 0) != (b < 0) ? -q : q;
}
static void judge_log(W *w, int b, int ty, int64_t t, int64_t s, int64_t r)
{
	int64_t e = logprod(ty, t, s, b == B_division);
	w->cmp++;
	note(w, "%s_%s(%s, %s) = %s, model %s", tname[ty], B[b].name, hx(ty, t), hx(ty, s), hx(ty, r), hx(ty, e));
	if (r == e)
		return;
	if (ty == T64 && t != 0 && s != 0 && e != 0 && e != nar(64) && r != 0 && r != nar(64)) {
		i128 la = lfix(64, t), lb = lfix(64, s), l = b == B_division ? la - lb : la + lb, p = pos_fix60(l * 2), d;
		int neg = (t < 0) != (s < 0);
		i128 mx = (i128)maxc(64) << 16, mn = (i128)1 << 16;
		p = p > mx ? mx : p < mn ? mn : p;
		d = ((i128)r << 16) - (neg ? -p : p);
		if (d < 0)
			d = -d;
		if (d <= (3 << 14))
			return;
	}
	fail(w, "%s_%s(%s, %s) = %s, exact rounding gives %s", tname[ty], B[b].name, hx(ty, t), hx(ty, s), hx(ty, r), hx(ty, e));
}
static inline void one2(W *w, int b, int ty, int64_t t, int64_t s)
{
	int64_t r = B[b].w[ty](t, s);
	w->states++, w->trans++;
	if (!ISLIN(ty) && (b == B_multiplication || b == B_division)) {
		outcome(w, (uint64_t)r ^ ((uint64_t)b << 58) ^ ((uint64_t)ty << 55));
		judge_log(w, b, ty, t, s, r);
	} else
		judge2(w, b, ty, t, s, r);
}
/* 16 bits: the same model as a table over every possible sum of logarithms */
static int32_t L16t[65536], *R16t;
#define R16O (520 << 11)
static void tab16(void)
{
	R16t = malloc(2 * R16O * sizeof *R16t);
	for (int k = -R16O; k < R16O; k++)
		R16t[k + R16O] = (int32_t)rne(pos_fix60((i128)k * ((i128)1 << 49)), 16);
	for (int t = -32767; t < 32768; t++)
		if (t)
			L16t[t & 65535] = (int32_t)(lfix(16, t) >> 48);
}
static void run_log16(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int b = (int)sp->a, div = b == B_division;
	f2 f = B[b].w[T16];
	uint64_t n = 0;
	EACH(w, i, lo, hi)
	{
		int t = (int)(i >> 16) - 32768, s = (int)(i & 65535) - 32768, e;
		int64_t r = f(t, s);
		n++;
		if (t == -32768 || s == -32768 || (div && s == 0))
			e = -32768;
		else if (t == 0 || s == 0)
			e = 0;
		else {
			e = R16t[R16O + L16t[t & 65535] + (div ? -L16t[s & 65535] : L16t[s & 65535])];
			if ((t < 0) != (s < 0))
				e = -e;
		}
		if (!(i & 15))
			outcome(w, (uint64_t)r ^ ((uint64_t)b << 58));
		note(w, "takum16_%s(%s, %s) = %s", B[b].name, hx(T16, t), hx(T16, s), hx(T16, r));
		if (r != e)
			fail(w, "takum16_%s(%s, %s) = %s, exact rounding gives %s", B[b].name, hx(T16, t), hx(T16, s), hx(T16, r), hx(T16, e));
	}
	w->states += n, w->trans += n, w->cmp += n;
}
static void run_all16(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int b = (int)sp->a, ty = (int)sp->b, N = tN[ty];
	EACH(w, i, lo, hi)
		one2(w, b, ty, nar(N) + (int64_t)(i >> N), nar(N) + (int64_t)(i & ((1u << N) - 1)));
}
static const struct pa *pset(int ty, int k) { return k == 0 ? &PS[ty] : k == 1 ? &PM[ty] : k == 2 ? &PL[ty] : &PC[ty]; }
static void run_grid(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int b = (int)sp->a, ty = (int)sp->b;
	const struct pa *x = pset(ty, (int)sp->c / 4), *y = pset(ty, (int)sp->c % 4);
	EACH(w, i, lo, hi)
		one2(w, b, ty, x->v[i / y->n], y->v[i % y->n]);
}
static void run_rel(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int b = (int)sp->a, ty = (int)sp->b;
	EACH(w, i, lo, hi)
	{
		int64_t t = ua_at(&UA[ty], i / NREL);
		one2(w, b, ty, t, rel(tN[ty], t, (int)(i % NREL)));
	}
}
static void run_relm(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int b = (int)sp->a, ty = (int)sp->b;
	const struct pa *x = pset(ty, (int)sp->c);
	EACH(w, i, lo, hi)
		one2(w, b, ty, x->v[i / NREL], rel(tN[ty], x->v[i / NREL], (int)(i % NREL)));
}
/* the second operand related to the value of the first: results at the ends of
 * the range, at power-of-two boundaries, half a unit away from the first */
#define NVREL 176
static int64_t vrel(int ty, int64_t t, int k)
{
	static const signed char J[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 18, 20, 22, 23, 24, 25, 26, 27, 28, 30, 31, 32, 40, 48, 52, 53, 58, 59, 60, 61, 62, 63, 64 };
	int N = tN[ty], neg = k & 1, d = 0;
	if (t == 0 || t == nar(N))
		return neg ? -maxc(N) : maxc(N);
	int64_t a = t < 0 ? -t : t;
	Q x = qval(ty, a), mx = qval(ty, maxc(N)), u = a < maxc(N) ? qval(ty, a + 1) - x : x, z;
	k >>= 1; /* 0..87 */
	if (k < 12) {
		z = k / 3 == 0 ? mx / x : k / 3 == 1 ? 1 / (mx * x) : k / 3 == 2 ? x * mx : x / mx;
		d = k % 3 - 1;
	} else if (k < 50)
		z = scalbnf128(x, -J[k - 12]);
	else if (k < 62) {
		z = u * (k < 53 ? (Q)0.5 : k < 56 ? (Q)1 : k < 59 ? (Q)1.5 : (Q)2.5);
		d = (k - 50) % 3 - 1;
	} else if (k < 68) {
		z = sqrtf128(x * u) * ((k - 62) / 2 == 0 ? (Q)1 : (k - 62) / 2 == 1 ? (Q)0.7 : (Q)1.42);
		d = (k - 62) % 2;
	} else if (k < 74) {
		z = scalbnf128(1, ilogbf128(x) + (k < 71)) - x;
		d = (k - 68) % 3 - 1;
	} else if (k < 78)
		z = k == 74 ? x * x : k == 75 ? sqrtf128(x) : k == 76 ? 1 / (x * x) : 1 / sqrtf128(x);
	else if (k < 84) {
		z = logf128(mx) / logf128(x);
		if (!(fabsf128(z) < (Q)0x1p300))
			z = mx;
		d = (k - 78) % 3 - 1;
		if (k >= 81)
			z = z / 2;
	} else {
		z = logf128(x);
		z = k == 84 ? 1 / z : k == 85 ? z : k == 86 ? 2 * x : 3 * x;
	}
	z = fabsf128(z);
	if (!(z > (Q)0x1p-400))
		z = (Q)0x1p-400;
	if (!(z < (Q)0x1p400))
		z = (Q)0x1p400;
	int64_t s = (int64_t)llrintf128(qspos(ty, z, 0)) + d;
	s = s < 1 ? 1 : s > maxc(N) ? maxc(N) : s;
	return neg ? -s : s;
}
static void run_vrel(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int b = (int)sp->a, ty = (int)sp->b;
	const struct pa *x = pset(ty, (int)sp->c);
	EACH(w, i, lo, hi)
	{
		int64_t t = x->v[i / NVREL], s = vrel(ty, t, (int)(i % NVREL));
		one2(w, b, ty, t, s);
		one2(w, b, ty, s, t);
	}
}
/* operands related by a number that changed lines of the sources name */
#define NLF 16
static int64_t litrel(int ty, int64_t t, int k)
{
	static const Q f[NLF / 4] = { 1, 1.0005f128, 0.9995f128, 1.3f128 };
	int N = tN[ty], j = k / NLF;
	Q x = t && t != nar(N) ? fabsf128(qval(ty, t)) : 1, v = LQ[j] * f[k & 3];
	int64_t s = (int64_t)llrintf128(qspos(ty, (k & 4) ? x / v : x * v, 0));
	return (k & 8) ? -s : s;
}
static void run_lit(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int b = (int)sp->a, ty = (int)sp->b;
	const struct pa *x = pset(ty, (int)sp->c);
	uint64_t n = (uint64_t)nLN * NLF;
	EACH(w, i, lo, hi)
	{
		int64_t t = x->v[i / n], s = litrel(ty, t, (int)(i % n));
		one2(w, b, ty, t, s);
		one2(w, b, ty, s, t);
	}
}
static void grid(int b, int ty, int x, int y)
{
	space(pset(ty, x)->n * pset(ty, y)->n, run_grid, b, ty, x * 4 + y, "%s_%s/pairs-%c%c", tname[ty], B[b].name, "SMLC"[x], "SMLC"[y]);
}
static void relm(int b, int ty, int x)
{
	space(pset(ty, x)->n * NREL, run_relm, b, ty, x, "%s_%s/related-%c", tname[ty], B[b].name, "SMLC"[x]);
}
static void add2(int b, int ty)
{
	if (tN[ty] == 8) {
		space(1u << 16, run_all16, b, ty, 0, "%s_%s/all-pairs", tname[ty], B[b].name);
		return;
	}
	space(pset(ty, thorough ? 2 : 1)->n * NVREL, run_vrel, b, ty, thorough ? 2 : 1, "%s_%s/related-values", tname[ty], B[b].name);
	if (tN[ty] == 16) {
		int exact = !ISLIN(ty) && (b == B_multiplication || b == B_division);
		if (exact && thorough)
			space(1ULL << 32, run_log16, b, ty, 0, "%s_%s/all-pairs", tname[ty], B[b].name);
		else if (thorough)
			space(1ULL << 32, run_all16, b, ty, 0, "%s_%s/all-pairs", tname[ty], B[b].name);
		else {
			grid(b, ty, 2, exact ? 1 : 0);
			grid(b, ty, 0, 2);
			if (!exact)
				grid(b, ty, 1, 3);
			relm(b, ty, 2);
		}
		return;
	}
	relm(b, ty, thorough ? 2 : 1);
	if (nLN)
		space(PC[ty].n * (uint64_t)nLN * NLF, run_lit, b, ty, 3, "%s_%s/related-by-literals", tname[ty], B[b].name);
	grid(b, ty, 1, 3);
	grid(b, ty, 2, 0);
	grid(b, ty, 0, 2);
	if (thorough) {
		grid(b, ty, 1, 1);
		grid(b, ty, 2, 3);
		grid(b, ty, 3, 2);
		space(UA[ty].n * NREL, run_rel, b, ty, 0, "%s_%s/related-dense", tname[ty], B[b].name);
	}
}
/* ---------- C08 ---------- */
static void run_log1(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int u = (int)sp->a, ty = (int)sp->b, N = tN[ty];
	EACH(w, i, lo, hi)
	{
		int64_t t = sp->c ? nar(N) + (int64_t)i : ua_at(&UA[ty], i), r = U[u].w[ty](t), e;
		w->states++, w->trans++, w->cmp++;
		outcome(w, (uint64_t)r ^ ((uint64_t)u << 58) ^ ((uint64_t)ty << 55));
		note(w, "%s_%s(%s) = %s", tname[ty], U[u].name, hx(ty, t), hx(ty, r));
		if (u == U_inversion) {
			e = t == nar(N) || t == 0 ? nar(N) : sext(((uint64_t)t ^ ((UINT64_C(1) << (N - 1)) - 1)) + 1, N);
			if (e != nar(N) && e != rne(pos_fix60(-2 * lfix(N, t)), N) * (t < 0 ? -1 : 1))
				fail(w, "model error: reciprocal of %s", hx(ty, t));
		} else
			e = t < 0 ? nar(N) : t == 0 ? 0 : rne(pos_fix60(lfix(N, t)), N);
		if (r == e)
			continue;
		if (ty == T64 && u == U_square_root && t > 0 && r > 0 && (r == e + 1 || r == e - 1)) {
			i128 d = ((i128)r << 16) - pos_fix60(lfix(N, t));
			if (d < 0)
				d = -d;
			if (d <= (3 << 14))
				continue;
		}
		fail(w, "%s_%s(%s) = %s, exact rounding gives %s", tname[ty], U[u].name, hx(ty, t), hx(ty, r), hx(ty, e));
	}
}
void c08(void)
{
	alpha_init(12, 12);
	tab16();
	for (int ty = T8; ty <= T64; ty++) {
		int all = tN[ty] <= (thorough ? 32 : 16);
		space(all ? 1ULL << tN[ty] : UA[ty].n, run_log1, U_inversion, ty, all, "%s_inversion/unary", tname[ty]);
		space(all ? 1ULL << tN[ty] : UA[ty].n, run_log1, U_square_root, ty, all, "%s_square_root/unary", tname[ty]);
		for (int b = B_multiplication; b <= B_division; b++) {
			add2(b, ty);
			if (tN[ty] > 16 && !thorough) /* exact oracle is cheap: denser relations */
				space(UA[ty].n * NREL / 8, run_rel, b, ty, 0, "%s_%s/related-dense", tname[ty], B[b].name);
		}
	}
}
void c09(void)
{
	alpha_init(thorough ? 12 : 8, thorough ? -10 : -6);
	for (int ty = L8; ty <= L64; ty++) {
		space(UA[ty].n, run_un, U_inversion, ty, 0, "%s_inversion/unary", tname[ty]);
		space(UA[ty].n, run_un, U_square_root, ty, 0, "%s_square_root/unary", tname[ty]);
		for (int b = B_multiplication; b <= B_division; b++)
			add2(b, ty);
	}
}
void c10(void)
{
	alpha_init(2, -2);
	for (int ty = 0; ty < NT; ty++)
		for (int b = B_addition; b <= B_subtraction; b++)
			add2(b, ty);
}
void c11(void)
{
	alpha_init(2, -2);
	for (int ty = 0; ty < NT; ty++) {
		add2(B_hypotenuse, ty);
		add2(B_arctan2, ty);
		add2(B_arctan2_over_pi, ty);
	}
}
/* ---------- C17 ---------- */
static int64_t *IE[NT];
static uint64_t nIE[NT];
static void intexp(void)
{
	for (int ty = 0; ty < NT; ty++) {
		IE[ty] = malloc(700 * sizeof **IE);
		for (int k = -80; k <= 80; k++) {
			int64_t c = k ? (int64_t)llrintf128(qspos(ty, k, k < 0)) : 0;
			IE[ty][nIE[ty]++] = c;
			if (tN[ty] > 8 && k && k % 5 == 0)
				IE[ty][nIE[ty]++] = c + 1, IE[ty][nIE[ty]++] = c - 1;
		}
		for (int k = 1; k < 254; k += 3)
			for (int s = -1; s <= 1; s += 2) {
				Q v = scalbnf128(1, k) * s;
				IE[ty][nIE[ty]++] = (int64_t)llrintf128(qspos(ty, v, s < 0));
				IE[ty][nIE[ty]++] = (int64_t)llrintf128(qspos(ty, v + s, s < 0));
			}
	}
}
static void run_pint(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int ty = (int)sp->a;
	const struct pa *x = pset(ty, (int)sp->b);
	EACH(w, i, lo, hi)
		one2(w, B_power, ty, x->v[i / nIE[ty]], IE[ty][i % nIE[ty]]);
}
void c17(void)
{
	alpha_init(2, -2);
	intexp();
	for (int ty = 0; ty < NT; ty++) {
		add2(B_power, ty);
		if (tN[ty] > 8 && !(tN[ty] == 16 && thorough))
			space(PM[ty].n * nIE[ty], run_pint, ty, 1, 0, "%s_power/integral-exponents", tname[ty]);
		if (tN[ty] > 16 && thorough)
			space(PL[ty].n * nIE[ty], run_pint, ty, 2, 0, "%s_power/integral-exponents-L", tname[ty]);
	}
}
/* ---------- C18, C19 ---------- */
static void run_int(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int f = (int)sp->a, ty = (int)sp->b, N = tN[ty];
	EACH(w, i, lo, hi)
	{
		int64_t t, n;
		switch (sp->c) {
		case 0: t = nar(N) + (int64_t)(i / (uint64_t)NNS), n = NS[i % (uint64_t)NNS]; break;
		case 1: t = PM[ty].v[i / (uint64_t)NNS], n = NS[i % (uint64_t)NNS]; break;
		case 2: t = PL[ty].v[i / (uint64_t)NNS], n = NS[i % (uint64_t)NNS]; break;
		case 3: t = nar(N) + (int64_t)(i & 255), n = (int64_t)(i >> 8) - (thorough ? 1 << 21 : 1 << 15); break;
		case 4: t = ua_at(&UA[ty], i / 8), n = ((const int64_t[]){ 1, -1, 2, -2, 3, -3, 5, 10 })[i % 8]; break;
		case 6: t = nar(N) + (int64_t)(i / (uint64_t)NNS2), n = NS2[i % (uint64_t)NNS2]; break;
		case 7: t = PC[ty].v[i / (uint64_t)NNS2], n = NS2[i % (uint64_t)NNS2]; break;
		default: t = PS[ty].v[i >> 11], n = (int64_t)(i & 2047) - 1024;
		}
		int64_t r = I[f].w[ty](t, n);
		w->states++, w->trans++;
		judgei(w, f, ty, t, n, r);
	}
}
static void ints(int f)
{
	alpha_init(thorough ? 12 : 6, thorough ? -12 : -6);
	for (int ty = 0; ty < NT; ty++) {
		if (tN[ty] == 8)
			space(thorough ? 1ULL << 30 : 1u << 24, run_int, f, ty, 3, "%s_%s/all-codes-all-small-integers", tname[ty], I[f].name);
		if (tN[ty] <= 16)
			space((uint64_t)NNS << tN[ty], run_int, f, ty, 0, "%s_%s/all-codes", tname[ty], I[f].name);
		else {
			space((uint64_t)NNS * (thorough ? PL : PM)[ty].n, run_int, f, ty, thorough ? 2 : 1, "%s_%s/codes-x-integers", tname[ty], I[f].name);
			space(UA[ty].n * 8, run_int, f, ty, 4, "%s_%s/dense-codes-small-integers", tname[ty], I[f].name);
		}
		if (tN[ty] == 8)
			space((uint64_t)NNS2 << 8, run_int, f, ty, 6, "%s_%s/all-codes-powers-of-two", tname[ty], I[f].name);
		else
			space((uint64_t)NNS2 * PC[ty].n, run_int, f, ty, 7, "%s_%s/codes-x-powers-of-two", tname[ty], I[f].name);
		if (tN[ty] > 8)
			space(PS[ty].n << 11, run_int, f, ty, 5, "%s_%s/landmarks-x-1024", tname[ty], I[f].name);
	}
}
void c18(void) { ints(I_integer_power); }
void c19(void) { ints(I_root); }

/* ---------- C07: kind of the result only ---------- */
static inline int agree(int ty, int k, long double y, int64_t r)
{
	int64_t nr = nar(tN[ty]);
	if (k == KN)
		return r == nr;
	if (k == KTP || k == KTN)
		return r == (k == KTP ? 1 : -1);
	if (isnan(y))
		return 0;
	if (y == 0)
		return r == 0;
	if (r == 0 || r == nr)
		return 0;
	/* far beyond the range: the extreme code */
	if (fabsl(y) > 0x1p300L)
		return r == (y < 0 ? -maxc(tN[ty]) : maxc(tN[ty]));
	if (fabsl(y) < 0x1p-300L)
		return r == (y < 0 ? -1 : 1);
	return 1;
}
static void run_k1(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int u = (int)sp->a, ty = (int)sp->b, N = tN[ty];
	EACH(w, i, lo, hi)
	{
		int64_t t = ua_at(&UA[ty], i), r = U[u].w[ty](t);
		long double y = 0;
		w->states++, w->trans++;
		int k = t == nar(N) ? KN : OL1[u](t ? lval(ty, t) : 0, &y);
		if (agree(ty, k, y, r)) {
			w->cmp++;
			note(w, "%s_%s(%s) = %s: kind agrees", tname[ty], U[u].name, hx(ty, t), hx(ty, r));
			outcome(w, (uint64_t)(u * NT + ty) * 4 + (r == 0 ? 0 : r == nar(N) ? 1 : r > 0 ? 2 : 3));
		} else
			judge1(w, u, ty, t, r);
	}
}
static inline void kind2(W *w, int b, int ty, int64_t t, int64_t s)
{
	int N = tN[ty];
	int64_t r = B[b].w[ty](t, s);
	long double y = 0;
	w->states++, w->trans++;
	int k = t == nar(N) || s == nar(N) ? KN : OL2(b, t ? lval(ty, t) : 0, s ? lval(ty, s) : 0, &y);
	if (agree(ty, k, y, r)) {
		w->cmp++;
		note(w, "%s_%s(%s, %s) = %s: kind agrees", tname[ty], B[b].name, hx(ty, t), hx(ty, s), hx(ty, r));
		outcome(w, (uint64_t)(b * NT + ty) * 4 + 4096 + (r == 0 ? 0 : r == nar(N) ? 1 : r > 0 ? 2 : 3));
	} else
		judge2(w, b, ty, t, s, r);
}
static void run_k2(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int b = (int)sp->a, ty = (int)sp->b;
	const struct pa *x = pset(ty, (int)sp->c / 4), *y = pset(ty, (int)sp->c % 4);
	EACH(w, i, lo, hi)
		kind2(w, b, ty, x->v[i / y->n], y->v[i % y->n]);
}
static void run_k2l(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int b = (int)sp->a, ty = (int)sp->b;
	uint64_t n = (uint64_t)nLN * NLF;
	EACH(w, i, lo, hi)
	{
		int64_t t = PC[ty].v[i / n], s = litrel(ty, t, (int)(i % n));
		kind2(w, b, ty, t, s);
		kind2(w, b, ty, s, t);
	}
}
static void run_k2v(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int b = (int)sp->a, ty = (int)sp->b;
	EACH(w, i, lo, hi)
	{
		int64_t t = PM[ty].v[i / NVREL], s = vrel(ty, t, (int)(i % NVREL));
		kind2(w, b, ty, t, s);
		kind2(w, b, ty, s, t);
	}
}
static void run_k2r(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int b = (int)sp->a, ty = (int)sp->b;
	const struct pa *x = pset(ty, (int)sp->c);
	EACH(w, i, lo, hi)
		kind2(w, b, ty, x->v[i / NREL], rel(tN[ty], x->v[i / NREL], (int)(i % NREL)));
}
static void run_ki(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int f = (int)sp->a, ty = (int)sp->b, N = tN[ty];
	const struct pa *x = pset(ty, (int)(sp->c & 3));
	const int64_t *ns = sp->c & 4 ? NS2 : NS;
	uint64_t nn = (uint64_t)(sp->c & 4 ? NNS2 : NNS);
	EACH(w, i, lo, hi)
	{
		int64_t t = x->v[i / nn], n = ns[i % nn], r = I[f].w[ty](t, n);
		int nk = t == nar(N) || (f == I_integer_power ? t == 0 && n <= 0 : n == 0 || (t < 0 && n % 2 == 0) || (t == 0 && n < 0));
		w->states++, w->trans++, w->cmp++;
		note(w, "%s_%s(%s, %lld) = %s", tname[ty], I[f].name, hx(ty, t), (long long)n, hx(ty, r));
		outcome(w, (uint64_t)(f * NT + ty) * 4 + 8192 + (r == 0 ? 0 : r == nar(N) ? 1 : r > 0 ? 2 : 3));
		if (nk ? r != nar(N) : r == nar(N) || (r == 0) != (t == 0) || (t != 0 && (r < 0) != (t < 0 && n % 2 != 0)))
			fail(w, "%s_%s(%s, %lld) = %s, expected %s", tname[ty], I[f].name, hx(ty, t), (long long)n, hx(ty, r),
			     nk ? "NaR" : t == 0 ? "0" : "a nonzero result of the right sign");
	}
}
void c07(void)
{
	alpha_init(thorough ? 8 : 3, thorough ? -8 : -3);
	for (int ty = 0; ty < NT; ty++) {
		for (int u = 0; u < NU; u++)
			space(UA[ty].n, run_k1, u, ty, 0, "%s_%s/kind", tname[ty], U[u].name);
		for (int b = 0; b < NB; b++) {
			int k = tN[ty] == 8 ? 0 : thorough ? 8 : 4;
			space(pset(ty, k / 4)->n * pset(ty, 0)->n, run_k2, b, ty, k, "%s_%s/kind-%cS", tname[ty], B[b].name, "SMLC"[k / 4]);
			if (tN[ty] > 8) {
				k = thorough ? 2 : 0;
				space(pset(ty, 0)->n * pset(ty, k ? k : 1)->n, run_k2, b, ty, k ? k : 1, "%s_%s/kind-S%c", tname[ty], B[b].name, k ? 'L' : 'M');
				space(PL[ty].n * NREL, run_k2r, b, ty, 2, "%s_%s/kind-related", tname[ty], B[b].name);
				space(PM[ty].n * NVREL, run_k2v, b, ty, 0, "%s_%s/kind-related-values", tname[ty], B[b].name);
				if (nLN)
					space(PC[ty].n * (uint64_t)nLN * NLF, run_k2l, b, ty, 0, "%s_%s/kind-related-by-literals", tname[ty], B[b].name);
			}
		}
		for (int f = 0; f < NI; f++)
			space(pset(ty, thorough ? 2 : 1)->n * (uint64_t)NNS, run_ki, f, ty, thorough ? 2 : 1, "%s_%s/kind", tname[ty], I[f].name),
			space(PC[ty].n * (uint64_t)NNS2, run_ki, f, ty, 7, "%s_%s/kind-powers-of-two", tname[ty], I[f].name);
	}
}
/* ---------- C21 ---------- */
static const int odd[] = { U_sin, U_tan, U_cot, U_csc, U_arcsin, U_arcsin_over_pi, U_arctan, U_arctan_over_pi, U_arccsc, U_arccsc_over_pi, U_sinh, U_tanh, U_coth, U_csch,
	U_arsinh, U_artanh, U_arcoth, U_arcsch, U_inversion, U_sign }, even[] = { U_cos, U_sec, U_cosh, U_sech, U_absolute };
static inline int near1(int ty, int64_t a, int64_t b)
{
	int64_t n = nar(tN[ty]);
	return a == b || (ty == T64 && a != n && b != n && a != 0 && b != 0 && (a - b == 1 || b - a == 1));
}
static void run_par(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int u = (int)sp->a, ty = (int)sp->b, N = tN[ty];
	EACH(w, i, lo, hi)
	{
		int64_t t = ua_at(&UA[ty], i);
		w->states++;
		if (t == nar(N) || t < 0)
			continue;
		int64_t a = U[u].w[ty](t), b = U[u].w[ty](-t), e = sp->c && a != nar(N) ? -a : a;
		w->trans += 2, w->cmp++;
		outcome(w, (uint64_t)a ^ ((uint64_t)(u * 8 + ty) << 54));
		note(w, "%s_%s(%s) = %s, at its negation %s", tname[ty], U[u].name, hx(ty, t), hx(ty, a), hx(ty, b));
		if (!near1(ty, b, e))
			fail(w, "%s_%s(%s) = %s but at its negation it is %s", tname[ty], U[u].name, hx(ty, t), hx(ty, a), hx(ty, b));
	}
}
static inline int64_t ng(int N, int64_t t) { return t == nar(N) ? t : -t; }
static void law(W *w, int ty, int64_t t, int64_t s)
{
	int N = tN[ty];
	int64_t nt = ng(N, t), nS = ng(N, s), a, b;
#define F(f, x, y) B[B_##f].w[ty](x, y)
#define EX(...) do { int STRICT = 1; EQ_(__VA_ARGS__); } while (0)
#define EQ(...) do { int STRICT = 0; EQ_(__VA_ARGS__); } while (0)
#define EQ_(name, l, r) do { a = (l), b = (r); w->trans += 1, w->cmp++; if (a != b && !(!STRICT && near1(ty, a, b))) { fail(w, "%s, a = %s, b = %s: " name ": %s and %s", tname[ty], hx(ty, t), hx(ty, s), hx(ty, a), hx(ty, b)); return; } } while (0)
	w->states++;
	int64_t sum = F(addition, t, s), df = F(subtraction, t, s), m = F(multiplication, t, s), q = F(division, t, s), h = F(hypotenuse, t, s);
	note(w, "%s a = %s, b = %s: a+b = %s and every other law", tname[ty], hx(ty, t), hx(ty, s), hx(ty, sum));
	outcome(w, (uint64_t)sum ^ ((uint64_t)ty << 60));
	EX("a+b = b+a", sum, F(addition, s, t));
	EQ("-a + -b = -(a+b)", F(addition, nt, nS), ng(N, sum));
	EX("a-b = a+(-b)", df, F(addition, t, nS));
	EQ("-a - -b = -(a-b)", F(subtraction, nt, nS), ng(N, df));
	EQ("b-a = -(a-b)", F(subtraction, s, t), ng(N, df));
	EX("a*b = b*a", m, F(multiplication, s, t));
	EQ("-a*b = -(a*b)", F(multiplication, nt, s), ng(N, m));
	EQ("-a * -b = a*b", F(multiplication, nt, nS), m);
	EQ("-a/b = -(a/b)", F(division, nt, s), ng(N, q));
	EQ("a/-b = -(a/b)", F(division, t, nS), ng(N, q));
	EX("hypot(a,b) = hypot(b,a)", h, F(hypotenuse, s, t));
	EX("hypot(-a,b) = hypot(a,b)", F(hypotenuse, nt, s), h);
}
static void run_law(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int ty = (int)sp->a;
	const struct pa *x = pset(ty, (int)sp->c / 4), *y = pset(ty, (int)sp->c % 4);
	EACH(w, i, lo, hi)
		law(w, ty, x->v[i / y->n], y->v[i % y->n]);
}
static void run_lawr(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int ty = (int)sp->a;
	const struct pa *x = pset(ty, (int)sp->c);
	EACH(w, i, lo, hi)
		law(w, ty, x->v[i / NREL], rel(tN[ty], x->v[i / NREL], (int)(i % NREL)));
}
static void run_lawv(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int ty = (int)sp->a;
	EACH(w, i, lo, hi)
		law(w, ty, PM[ty].v[i / NVREL], vrel(ty, PM[ty].v[i / NVREL], (int)(i % NVREL)));
}
static void run_lawl(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int ty = (int)sp->a;
	uint64_t n = (uint64_t)nLN * NLF;
	EACH(w, i, lo, hi)
		law(w, ty, PC[ty].v[i / n], litrel(ty, PC[ty].v[i / n], (int)(i % n)));
}
void c21(void)
{
	alpha_init(thorough ? 12 : 3, thorough ? -12 : -3);
	for (int ty = 0; ty < NT; ty++) {
		for (unsigned k = 0; k < sizeof odd / sizeof *odd; k++)
			space(UA[ty].n, run_par, odd[k], ty, 1, "%s_%s/odd", tname[ty], U[odd[k]].name);
		for (unsigned k = 0; k < sizeof even / sizeof *even; k++)
			space(UA[ty].n, run_par, even[k], ty, 0, "%s_%s/even", tname[ty], U[even[k]].name);
		space(PM[ty].n * PS[ty].n, run_law, ty, 0, 4, "%s/laws-MS", tname[ty]);
		if (tN[ty] > 8) {
			space(PM[ty].n * NVREL, run_lawv, ty, 0, 0, "%s/laws-related-values", tname[ty]);
			if (nLN)
				space(PC[ty].n * (uint64_t)nLN * NLF, run_lawl, ty, 0, 0, "%s/laws-related-by-literals", tname[ty]);
			space((thorough ? PL : PM)[ty].n * NREL, run_lawr, ty, 0, thorough ? 2 : 1, "%s/laws-related", tname[ty]);
			if (thorough)
				space(PM[ty].n * PM[ty].n, run_law, ty, 0, 5, "%s/laws-MM", tname[ty]), space(PL[ty].n * PS[ty].n, run_law, ty, 0, 8, "%s/laws-LS", tname[ty]);
		}
	}
}
