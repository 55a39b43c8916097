/*
 * C24: the library under UndefinedBehaviorSanitizer and AddressSanitizer
 * (any report ends the visit, which the engine records), and two further
 * builds that fill fresh stack variables with different patterns: a result
 * that differs between them depends on an uninitialised value.
 */
#include "call.h"
#include "props.h"
static struct tabs tz, tp;
static void one(W *w, int c, uint64_t a, uint64_t b)
{
	note(w, "%s(0x%llx, 0x%llx)", callname(c), (unsigned long long)a, (unsigned long long)b);
	struct res r = call(&own, c, a, b), z = call(&tz, c, a, b), p = call(&tp, c, a, b);
	w->trans += 3, w->cmp++;
	outcome(w, r.lo ^ r.hi << 40 ^ (uint64_t)c << 20);
	if (z.lo != p.lo || z.hi != p.hi)
		fail(w, "%s(0x%llx, 0x%llx) depends on an uninitialised value: 0x%llx or 0x%llx", callname(c), (unsigned long long)a,
		     (unsigned long long)b, (unsigned long long)z.lo, (unsigned long long)p.lo);
}
static void s_set(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	EACH(w, i, lo, hi)
	{
		uint64_t a, b;
		w->states++;
		argat((int)sp->a, (int)sp->b, i, &a, &b);
		one(w, (int)sp->a, a, b);
	}
}
/* wide unary alphabet, or every code of the narrow types */
static void s_ua(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int c = (int)sp->a;
	EACH(w, i, lo, hi)
	{
		w->states++;
		one(w, c, (uint64_t)ua_at(&UA[CID[c].ty], i), 0);
	}
}
/* every float32 with a coarse step of its low bits; all 8/16-bit tops of the others */
static void s_fl(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int c = (int)sp->a, k = CID[c].kind;
	static const uint64_t tl[] = { 0, ~0ULL, 0x8000000000000000, 0x5a5a5a5a5a5a5a5a };
	EACH(w, i, lo, hi)
	{
		uint64_t t = tl[i & 3], p = i >> 2;
		w->states++;
		if (k == K_F32)
			one(w, c, p << 14 | t >> 50, 0);
		else if (k == K_F64)
			one(w, c, p << 46 | t >> 18, 0);
		else
			one(w, c, t >> 4 | (p & 7) << 60 | 1ULL << 63, p >> 2 & 0xffff);
	}
}
/* single-bit changes of landmark pairs, and equal or negated operands */
static void s_rel(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int c = (int)sp->a, ty = CID[c].ty, N = tN[ty];
	EACH(w, i, lo, hi)
	{
		uint64_t a = (uint64_t)PM[ty].v[i / 20], b;
		int r = (int)(i % 20);
		b = r == 0 ? a : r == 1 ? 0 - a : r == 2 ? ~a : r == 3 ? a + 1 : a ^ 1ULL << (r * 13 % N);
		w->states++;
		one(w, c, a, (uint64_t)sext(b, N));
	}
}
void c24(void)
{
	tz = tabs_load(getenv("UB_ZERO"), 0);
	tp = tabs_load(getenv("UB_PAT"), 0);
	alpha_pb = thorough ? 18 : 14;
	alpha_init(4, 4);
	calls_init();
	for (int c = 0; c < NCID; c++) {
		int k = CID[c].kind, f = k == K_F32 || k == K_F64 || k == K_FX;
		if (f)
			space(k == K_FX ? 1u << 20 : 1u << 20, s_fl, c, 0, 0, "%s/grid", callname(c));
		space(nargs(c, thorough ? 2 : 1), s_set, c, thorough ? 2 : 1, 0, "%s/set", callname(c));
		if (!f && k != K_B && k != K_I)
			space(UA[CID[c].ty].n, s_ua, c, 0, 0, "%s/codes", callname(c));
		if (k == K_B)
			space(PM[CID[c].ty].n * 20, s_rel, c, 0, 0, "%s/related", callname(c));
	}
}
