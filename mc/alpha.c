#include "alpha.h"
struct ua UA[NT];
struct pa PS[NT], PM[NT], PL[NT], PC[NT];
Q *LQ;
int nLQ, nLN, NNS, NNS2;
int64_t *NS, *NS2;
static uint64_t Bits[64];
static int nBits;
static const int64_t NS0[] = { 0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 6, 7, -7, 8, 9, 10, -10, 12, 15, 16, 17, 31, 33, 63, 64, 65, 99, 100, -100, 101, -101,
	127, 128, 129, 254, 255, 256, 257, -255, 510, 511, 1000, 1001, -1000, -1001, 4095, 65535, 65536, 65537, -65537, 999999, 1000000, 16777215, 16777216, 16777217,
	-16777217, 16777218, 2147483646, 2147483647, 2147483648LL, 2147483649LL, -2147483647, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, 4294967297LL, -4294967297LL,
	1LL << 40, (1LL << 40) + 1, 9007199254740991LL, 9007199254740992LL, 9007199254740993LL, -9007199254740991LL, -9007199254740993LL,
	(1LL << 62) - 1, 1LL << 62, (1LL << 62) + 1, INT64_MAX - 1, INT64_MAX, INT64_MIN, INT64_MIN + 1, -(1LL << 62) - 1 };
static void addq(Q x)
{
	x = fabsf128(x);
	if (!(x > (Q)0x1p-300 && x < (Q)0x1p300))
		return;
	for (int k = 0; k < nLQ; k++)
		if (LQ[k] == x)
			return;
	LQ = realloc(LQ, (size_t)(nLQ + 1) * sizeof *LQ);
	LQ[nLQ++] = x;
}
static int cmpn(const void *a, const void *b)
{
	int64_t x = *(const int64_t *)a, y = *(const int64_t *)b;
	return x < y ? -1 : x > y;
}
static int sortn(int64_t *v, int n)
{
	int k = 0;
	qsort(v, (size_t)n, sizeof *v, cmpn);
	for (int i = 0; i < n; i++)
		if (!k || v[k - 1] != v[i])
			v[k++] = v[i];
	return k;
}
void lits(void)
{
	static int done;
	if (done++)
		return;
	int64_t *a = malloc(20000 * sizeof *a), *b = malloc(20000 * sizeof *b);
	int n = 0, m = 0;
	for (unsigned k = 0; k < sizeof NS0 / sizeof *NS0; k++)
		a[n++] = NS0[k];
	for (int k = 0; k < 64; k++)
		for (int d = -1; d <= 1; d++) {
			uint64_t u = (UINT64_C(1) << k) + (uint64_t)d, v = (UINT64_C(3) << k) + (uint64_t)d;
			b[m++] = (int64_t)u, b[m++] = (int64_t)(0 - u);
			if (k < 61)
				b[m++] = (int64_t)v, b[m++] = (int64_t)(0 - v);
		}
	int64_t p = 1;
	for (int k = 0; k < 18; k++, p *= 10)
		for (int d = -1; d <= 1; d++)
			b[m++] = p + d, b[m++] = -(p + d);
	char l[300];
	static Q fresh[64], old[512];
	int nf = 0, no = 0;
	FILE *f = getenv("MC_LITS") ? fopen(getenv("MC_LITS"), "r") : 0;
	while (f && fgets(l, sizeof l, f)) {
		char *e;
		long double x = strtold(l + 2, &e);
		if (!isfinite(x) || e == l + 2 || l[0] == 'C')
			continue;
		if (l[0] == 'N' && nf < 64) {
			fresh[nf++] = x;
			if (floorl(x) == x && x < 0x1p64L && x > 300 && nBits < 64)
				Bits[nBits++] = (uint64_t)x;
		} else if (no < 512)
			old[no++] = x;
		if (floorl(x) == x && x < 0x1p63L)
			for (int d = -2; d <= 2; d++)
				for (int g = -1; g <= 1; g += 2) {
					int64_t v = g * ((int64_t)x + d);
					if (l[0] == 'N')
						a[n++] = v;
					else
						b[m++] = v;
				}
	}
	if (f)
		fclose(f);
	for (int k = 0; k < nf; k++) {
		Q x = fresh[k];
		addq(x), addq(1 / x), addq(x * x), addq(sqrtf128(x)), addq(1 / sqrtf128(x)), addq(x * 2), addq(x / 2), addq(1 + x), addq(1 - x);
		addq(x * QPI), addq(x / QPI), addq(x * QLN2), addq(x / QLN2);
		if (x < 700)
			addq(expf128(x)), addq(expf128(-x)), addq(expf128(x / 2)), addq(expf128(-x / 2)), addq(logf128(x)), addq(2 * logf128(x));
		if (x < 300)
			addq(exp2f128(x)), addq(exp2f128(-x));
	}
	nLN = nLQ;
	for (int k = 0; k < no; k++)
		addq(old[k]), addq(1 / old[k]);
	for (int k = 0; k < n; k++)
		b[m++] = a[k];
	NNS = sortn(a, n), NS = a;
	NNS2 = sortn(b, m), NS2 = b;
}
static uint64_t tail(int bits, int k)
{
	uint64_t ones = bits >= 64 ? ~0ULL : (1ULL << bits) - 1, half = bits ? 1ULL << (bits - 1) : 0;
	static const uint64_t c[] = { 0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 0xa5c3e1f09b7d1234, 0x3333333333333333,
		0x123456789abcdef1, 0xfedcba9876543210, 0x9e3779b97f4a7c15, 0x0f0f0f0f0f0f0f0f };
	switch (k) {
	case 0: return 0;
	case 1: return ones;
	case 2: return half;
	case 3: return 1 & ones;
	case 4: return half ? half - 1 : 0;
	case 5: return half + 1 <= ones ? half + 1 : ones;
	default: return c[(k - 6) & 7] & ones;
	}
}
int64_t ua_at(const struct ua *a, uint64_t i)
{
	if (a->N <= 16)
		return nar(a->N) + (int64_t)i;
	if (i < a->nsp)
		return a->sp[i];
	i -= a->nsp;
	return sext(((i / (uint64_t)a->nt) << (a->N - a->pb)) | tail(a->N - a->pb, (int)(i % (uint64_t)a->nt)), a->N);
}
static int cmp(const void *a, const void *b)
{
	int64_t x = *(const int64_t *)a, y = *(const int64_t *)b;
	return x < y ? -1 : x > y;
}
struct vec { int64_t *v; uint64_t n, c; };
static void add(struct vec *v, int N, int64_t t)
{
	if (v->n == v->c)
		v->v = realloc(v->v, (v->c = v->c * 2 + 1024) * sizeof *v->v);
	v->v[v->n++] = sext((uint64_t)t, N);
}
static void uniq(struct vec *v)
{
	uint64_t k = 0;
	qsort(v->v, v->n, sizeof *v->v, cmp);
	for (uint64_t i = 0; i < v->n; i++)
		if (!k || v->v[k - 1] != v->v[i])
			v->v[k++] = v->v[i];
	v->n = k;
}
static void around(struct vec *v, int N, int64_t t, int64_t d)
{
	for (int64_t k = -d; k <= d; k++)
		add(v, N, (int64_t)((uint64_t)t + (uint64_t)k)), add(v, N, (int64_t)(0 - ((uint64_t)t + (uint64_t)k)));
}
static int64_t code(int ty, Q y)
{
	return (int64_t)llrintf128(qspos(ty, y, 0));
}
static void specials(int ty)
{
	struct vec v = { 0 };
	int N = tN[ty];
	around(&v, N, 0, 600);
	around(&v, N, onec(N), 2048);
	around(&v, N, maxc(N), 600);
	for (int k = 0; k < NK; k++)
		around(&v, N, K[k].v[ty], 16);
	for (int k = 1; k <= 2048; k++) { /* integers, halves, quarters */
		around(&v, N, code(ty, k), 1);
		around(&v, N, code(ty, (Q)k / 2), 1);
		around(&v, N, code(ty, (Q)k / 4), 1);
		around(&v, N, code(ty, (Q)k * 8 * 2048), 0);
	}
	for (int k = 2049; k <= 20000; k += 17)
		around(&v, N, code(ty, k), 0), around(&v, N, code(ty, k + (Q)0.5), 0);
	for (int k = 1; k <= 512; k++) { /* multiples of pi/4, logs */
		around(&v, N, code(ty, k * QPI / 4), 1);
		around(&v, N, code(ty, k * QLN2), 1);
		around(&v, N, code(ty, 1 / (Q)k), 1);
	}
	for (int e = -260; e <= 260; e++) { /* powers of two, ten, and both minus/plus one */
		around(&v, N, code(ty, scalbnf128(1, e)), 1);
		if (e > -80 && e < 80)
			around(&v, N, code(ty, exp10f128(e)), 1);
		if (e < 0) {
			around(&v, N, code(ty, 1 + scalbnf128(1, e)), 1);
			around(&v, N, code(ty, 1 - scalbnf128(1, e)), 1);
			around(&v, N, code(ty, 1 + scalbnf128((Q)1.5, e)), 1);
			around(&v, N, code(ty, 2 - scalbnf128(1, e)), 1);
		}
	}
	/* every characteristic and regime boundary */
	for (int c = -255; c <= 254; c++) {
		int64_t t = (int64_t)(pos_fix60((i128)c << 60) >> 16 >> (64 - N));
		around(&v, N, t, 3);
	}
	{ /* where results reach the ends of the range, or its square root */
		Q mx = qval(ty, maxc(N)), l = logf128(mx);
		const Q z[] = { l, -l, l / 2, l / QLN2, l / (2 * QLN2), l / logf128(10), sqrtf128(mx), 1 / sqrtf128(mx), logf128(l), l + QLN2, l - QLN2, 1 / l, asinf128(1 / l), sqrtf128(l),
			powf128(mx, 1.0f128 / 3), sqrtf128(sqrtf128(mx)), mx * 2 / QPI, mx / QPI, QPI / mx, 1 / (mx * QPI) };
		for (unsigned k = 0; k < sizeof z / sizeof *z; k++)
			around(&v, N, code(ty, fabsf128(z[k])), 16);
	}
	for (int j = -60; j <= 250; j++) { /* far multiples of pi/2, far integers and halves */
		around(&v, N, code(ty, scalbnf128(QPI, j)), 1), around(&v, N, code(ty, scalbnf128(3 * QPI, j)), 1);
		if (j > 10 && j < 63)
			for (int k = 1; k <= 7; k++)
				around(&v, N, code(ty, scalbnf128(1, j) + (Q)k / 4), 1), around(&v, N, code(ty, scalbnf128(1, j) - (Q)k / 4), 1);
	}
	for (int k = -127; k <= 127; k++)
		around(&v, N, code(ty, expf128(k)), 1), around(&v, N, code(ty, expf128(k + (Q)0.5)), 1);
	for (int k = 1; k <= 400; k++)
		around(&v, N, code(ty, k * (Q)1.5707963f128 * k * k), 0), around(&v, N, code(ty, floorf128(k * k * k * (Q)1.7f128) * QPI / 2), 1);
	for (int k = 0; k < nLQ; k++) { /* numbers the sources name */
		int64_t t = code(ty, LQ[k]);
		around(&v, N, t, k < nLN ? 24 : 1);
		if (k < nLN)
			for (int j = 5; j < N - 5; j++)
				around(&v, N, t + (INT64_C(1) << j), 0), around(&v, N, t - (INT64_C(1) << j), 0);
	}
	for (int k = 0; k < nBits; k++)
		around(&v, N, (int64_t)Bits[k], 8);
	uniq(&v);
	UA[ty].sp = v.v;
	UA[ty].nsp = v.n;
}
static void pairs(int ty)
{
	int N = tN[ty];
	struct vec s = { 0 }, m = { 0 }, l = { 0 }, q = { 0 };
	if (N == 8) {
		for (int64_t t = nar(8); t <= maxc(8); t++)
			add(&s, 8, t);
		PS[ty] = PM[ty] = PL[ty] = PC[ty] = (struct pa){ s.v, s.n };
		return;
	}
	static const int cs[] = { -255, -254, -200, -128, -127, -126, -64, -63, -62, -33, -32, -31, -30, -16, -15, -14, -8, -7, -6, -4, -3, -2, -1,
		0, 1, 2, 3, 6, 7, 8, 14, 15, 16, 29, 30, 31, 32, 62, 63, 64, 100, 126, 127, 128, 200, 253, 254 };
	/* small: boundary characteristics, mantissa 0 / one / all ones, plus landmarks */
	around(&s, N, 0, 2);
	around(&s, N, onec(N), 2);
	around(&s, N, maxc(N), 1);
	for (unsigned k = 0; k < sizeof cs / sizeof *cs; k++) {
		int64_t t = (int64_t)(pos_fix60((i128)cs[k] << 60) >> 16 >> (64 - N));
		int64_t e = (int64_t)(pos_fix60((i128)(cs[k] + 1) << 60) >> 16 >> (64 - N));
		for (int sg = 0; sg < 2; sg++) {
			if (k % 4 == 0)
				add(&s, N, sg ? -t : t);
			if (k % 4 == 1)
				add(&s, N, sg ? -(e - 1) : e - 1);
			if (k % 4 == 2)
				add(&s, N, sg ? -(t + (e - t) / 3) : t + (e - t) / 3);
			if (k % 4 == 3)
				add(&s, N, sg ? -(t + (e - t) / 2 + 1) : t + (e - t) / 2 + 1);
		}
	}
	static const Q lm[] = { 2, 3, 0.5f128, 1.5f128, 10, 0.1f128, 100, 7, 1000, 255, 1.0f128 / 3 };
	for (unsigned k = 0; k < sizeof lm / sizeof *lm; k++)
		around(&s, N, code(ty, lm[k]), 0);
	around(&s, N, code(ty, QPI), 0);
	uniq(&s);
	/* medium: every characteristic with several mantissas, landmarks with neighbours */
	for (uint64_t i = 0; i < s.n; i++)
		add(&m, N, s.v[i]);
	around(&m, N, 0, 16);
	around(&m, N, onec(N), 16);
	around(&m, N, maxc(N), 16);
	for (int k = 1; k <= 40; k++)
		around(&m, N, code(ty, k), 1), around(&m, N, code(ty, k / (Q)4), 1);
	for (int k = 0; k < NK; k++)
		around(&m, N, K[k].v[ty], 0);
	for (int c = -255; c <= 254; c++) {
		int64_t t = (int64_t)(pos_fix60((i128)c << 60) >> 16 >> (64 - N));
		int64_t e = (int64_t)(pos_fix60((i128)(c + 1) << 60) >> 16 >> (64 - N));
		for (int sg = -1; sg <= 1; sg += 2) {
			add(&m, N, sg * t);
			add(&m, N, sg * (e - 1));
			add(&m, N, sg * (t + (e - t) / 3));
			add(&m, N, sg * (t + (e - t) / 2));
		}
	}
	/* one per characteristic and sign, with a varying mantissa */
	for (int c = -255; c <= 254; c++) {
		int64_t t = (int64_t)(pos_fix60((i128)c << 60) >> 16 >> (64 - N));
		int64_t e = (int64_t)(pos_fix60((i128)(c + 1) << 60) >> 16 >> (64 - N));
		int64_t x = t + (int64_t)((i128)(e - t) * ((c * 37 + 1024) & 63) / 64);
		add(&q, N, x), add(&q, N, -x);
	}
	uniq(&q);
	PC[ty] = (struct pa){ q.v, q.n };
	uniq(&m);
	/* large: 14-bit prefixes with tails, and the medium set */
	for (uint64_t i = 0; i < m.n; i++)
		add(&l, N, m.v[i]);
	int pb = 14;
	for (uint64_t h = 0; h < 1u << pb; h++)
		for (int k = 0; k < (N == 16 ? 4 : 5); k++)
			add(&l, N, (int64_t)((h << (N - pb)) | tail(N - pb, k == 4 ? 8 : N == 16 ? k : k)));
	uniq(&l);
	PS[ty] = (struct pa){ s.v, s.n };
	PM[ty] = (struct pa){ m.v, m.n };
	PL[ty] = (struct pa){ l.v, l.n };
}
int alpha_pb; /* prefix bits of the wide types, 0: default */
void alpha_init(int nt32, int nt64)
{
	lits();
	for (int ty = 0; ty < NT; ty++) {
		struct ua *a = &UA[ty];
		a->ty = ty;
		a->N = tN[ty];
		if (a->N <= 16) {
			a->n = 1ULL << a->N;
		} else {
			a->nt = a->N == 32 ? nt32 : nt64;
			a->pb = alpha_pb ? alpha_pb : thorough ? 20 : 16;
			if (a->nt < 0) {
				a->nt = -a->nt;
				a->pb = 16;
			}
			specials(ty);
			a->n = a->nsp + (1ULL << a->pb) * (uint64_t)a->nt;
		}
		pairs(ty);
	}
}
