#include "call.h"
#include <dlfcn.h>
struct callid CID[1024];
int NCID;
const struct tabs own = { U, B, I, V, X };
void calls_init(void)
{
	for (int ty = 0; ty < NT; ty++) {
		for (int f = 0; f < NU; f++)
			CID[NCID++] = (struct callid){ K_U, f, ty };
		for (int f = 0; f < NB; f++)
			CID[NCID++] = (struct callid){ K_B, f, ty };
		for (int f = 0; f < NI; f++)
			CID[NCID++] = (struct callid){ K_I, f, ty };
		for (int k = K_F32; k <= K_PREC; k++)
			CID[NCID++] = (struct callid){ k, 0, ty };
		for (int f = 0; f < NT; f++)
			if (f != ty)
				CID[NCID++] = (struct callid){ K_X, f, ty };
	}
}
const char *callname(int c)
{
	static char b[4][80];
	static int k;
	static const char *const fx[] = { "from_float32", "from_float64", "from_extended_float", "to_float32", "to_float64", "to_extended_float", "precision" };
	const struct callid *d = &CID[c];
	k = (k + 1) & 3;
	if (d->kind == K_X)
		snprintf(b[k], 80, "%s_from_%s", tname[d->f], tname[d->ty]);
	else
		snprintf(b[k], 80, "%s_%s", tname[d->ty], d->kind == K_U ? U[d->f].name : d->kind == K_B ? B[d->f].name :
		         d->kind == K_I ? I[d->f].name : fx[d->kind - K_F32]);
	return b[k];
}
int argtype(int c)
{
	int k = CID[c].kind;
	return k >= K_F32 && k <= K_FX ? -1 : CID[c].ty;
}
struct tabs tabs_load(const char *so, void **h)
{
	struct tabs t;
	void *d = dlopen(so, RTLD_NOW | RTLD_LOCAL);
	if (!d) {
		fprintf(stderr, "%s\n", dlerror());
		exit(9);
	}
	t.u = dlsym(d, "U"), t.b = dlsym(d, "B"), t.i = dlsym(d, "I"), t.v = dlsym(d, "V"), t.x = dlsym(d, "X");
	if (!t.u || !t.b || !t.i || !t.v || !t.x)
		exit(9);
	if (h)
		*h = d;
	return t;
}
long double ldbits(uint64_t m, uint64_t se)
{
	union { long double f; uint64_t u[2]; } v;
	if ((se & 0x7fff) && !(m >> 63))
		m |= 1ULL << 63; /* only encodings the format defines */
	if (!(se & 0x7fff))
		m &= ~(1ULL << 63);
	v.u[0] = m, v.u[1] = se & 0xffff;
	return v.f;
}
/* exponent classes of a float with the given bias and width */
static int fexp(int k, int bias, int ebits)
{
	static const int e[] = { 0, 1, -1, 2, -2, 3, -3, 7, -8, 15, -16, 30, -31, 62, 63, 64, -63, -64, -65, 92, -93, 120, 126, -125, -126, 127, -127, 128, 183, 184, 185, -184, -185, 253, 254, 255, 256, -254,
		-255, -256, 300, -300, 1022, -1021, 1023, -1022, 10000, -10000, 16383, -16382 };
	int n = (int)(sizeof e / sizeof *e);
	if (k == n)
		return 0; /* zero and subnormal */
	if (k == n + 1)
		return (1 << ebits) - 1; /* infinity and NaN */
	int x = e[k] + bias;
	return x < 0 ? 0 : x >= (1 << ebits) ? (1 << ebits) - 2 : x;
}
#define NFE 52
static const uint64_t frc[] = { 0, 1, ~0ULL, 1ULL << 63, (1ULL << 63) + 1, (1ULL << 63) - 1, 0x5555555555555555, 0xb504f333f9de6484, 1ULL << 62, 0x123456789abcdef0 };
#define NFR 10
static const struct pa *pset(int ty, int s) { return s == 0 ? &PS[ty] : s == 1 ? &PM[ty] : &PL[ty]; }
uint64_t nargs(int c, int set)
{
	const struct callid *k = &CID[c];
	switch (k->kind) {
	case K_B: return set == 0 ? PS[k->ty].n * 3 : pset(k->ty, set - 1)->n * PS[k->ty].n;
	case K_I: return set == 0 ? PS[k->ty].n * 3 : pset(k->ty, set - 1)->n * (uint64_t)NNS;
	case K_F32: case K_F64: case K_FX: return set == 0 ? 2 * NFE : 2 * NFE * NFR;
	}
	return pset(k->ty, set)->n;
}
void argat(int c, int set, uint64_t i, uint64_t *a, uint64_t *b)
{
	const struct callid *k = &CID[c];
	*b = 0;
	switch (k->kind) {
	case K_B:
		if (set == 0)
			*a = (uint64_t)PS[k->ty].v[i / 3], *b = (uint64_t)PS[k->ty].v[(i / 3 * 7 + i % 3 * 17 + 1) % PS[k->ty].n];
		else
			*a = (uint64_t)pset(k->ty, set - 1)->v[i / PS[k->ty].n], *b = (uint64_t)PS[k->ty].v[i % PS[k->ty].n];
		return;
	case K_I:
		if (set == 0)
			*a = (uint64_t)PS[k->ty].v[i / 3], *b = (uint64_t)NS[(i / 3 * 5 + i % 3 * 13 + 1) % (uint64_t)NNS];
		else
			*a = (uint64_t)pset(k->ty, set - 1)->v[i / (uint64_t)NNS], *b = (uint64_t)NS[i % (uint64_t)NNS];
		return;
	case K_F32: case K_F64: case K_FX: {
		uint64_t s = i & 1, e = i / 2 % NFE, f = set == 0 ? frc[e % NFR] : frc[i / 2 / NFE];
		if (k->kind == K_F32)
			*a = s << 31 | (uint64_t)fexp((int)e, 127, 8) << 23 | f >> 41;
		else if (k->kind == K_F64)
			*a = s << 63 | (uint64_t)fexp((int)e, 1023, 11) << 52 | f >> 12;
		else
			*a = f >> 1 | 1ULL << 63, *b = s << 15 | (uint64_t)fexp((int)e, 16383, 15);
		return;
	}
	}
	*a = (uint64_t)pset(k->ty, set)->v[i];
}
