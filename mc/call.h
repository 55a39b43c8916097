/* Every public function behind one signature: call k of a table set on two words. */
#ifndef CALL_H
#define CALL_H
#include "alpha.h"
enum { K_U, K_B, K_I, K_F32, K_F64, K_FX, K_T32, K_T64, K_TX, K_PREC, K_X, NKIND };
struct callid { int kind, f, ty; };
struct tabs { const struct fun1 *u; const struct fun2 *b, *i; const struct conv *v; const f1 (*x)[NT]; };
struct res { uint64_t lo, hi; };
extern struct callid CID[1024];
extern int NCID;
extern const struct tabs own;
void calls_init(void);
const char *callname(int c);
int callargs(int c);             /* 1 or 2 code/integer words, 3: float bits */
struct tabs tabs_load(const char *so, void **handle);
long double ldbits(uint64_t m, uint64_t se);
static inline struct res call(const struct tabs *t, int c, uint64_t a, uint64_t b)
{
	const struct callid *k = &CID[c];
	struct res r = { 0, 0 };
	switch (k->kind) {
	case K_U: r.lo = (uint64_t)t->u[k->f].w[k->ty]((int64_t)a); break;
	case K_B: r.lo = (uint64_t)t->b[k->f].w[k->ty]((int64_t)a, (int64_t)b); break;
	case K_I: r.lo = (uint64_t)t->i[k->f].w[k->ty]((int64_t)a, (int64_t)b); break;
	case K_F32: { union { uint32_t u; float f; } v = { .u = (uint32_t)a }; r.lo = (uint64_t)t->v[k->ty].from32(v.f); break; }
	case K_F64: { union { uint64_t u; double f; } v = { .u = a }; r.lo = (uint64_t)t->v[k->ty].from64(v.f); break; }
	case K_FX: r.lo = (uint64_t)t->v[k->ty].fromx(ldbits(a, b)); break;
	case K_T32: { union { uint32_t u; float f; } v = { .f = t->v[k->ty].to32((int64_t)a) }; r.lo = v.f != v.f ? 1 : v.u; break; }
	case K_T64: { union { uint64_t u; double f; } v = { .f = t->v[k->ty].to64((int64_t)a) }; r.lo = v.f != v.f ? 1 : v.u; break; }
	case K_TX: {
		union { long double f; uint64_t u[2]; } v;
		v.u[1] = 0;
		v.f = t->v[k->ty].tox((int64_t)a);
		if (v.f != v.f)
			r.hi = 1;
		else
			r.lo = v.u[0], r.hi = v.u[1] & 0xffff;
		break;
	}
	case K_PREC: r.lo = (uint64_t)(int64_t)t->v[k->ty].prec((int64_t)a); break;
	case K_X: r.lo = (uint64_t)t->x[k->f][k->ty]((int64_t)a); break;
	}
	return r;
}
/* argument tuples of call c: set 0 small (about 24), 1 medium, 2 large */
uint64_t nargs(int c, int set);
void argat(int c, int set, uint64_t i, uint64_t *a, uint64_t *b);
int argtype(int c); /* type of the first argument's code, or -1 */
#endif
