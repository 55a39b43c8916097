#ifndef ALPHA_H
#define ALPHA_H
#include "orc.h"
/* unary alphabet: every pb-bit prefix with every listed tail, then specials */
struct ua { int ty, N, pb, nt; uint64_t np, n, nsp; const int64_t *sp; };
extern struct ua UA[NT];
extern int alpha_pb;
void alpha_init(int pb32, int pb64);
int64_t ua_at(const struct ua *, uint64_t i);
/* pair alphabets: three nested sizes, small / medium / large */
struct pa { const int64_t *v; uint64_t n; };
extern struct pa PS[NT], PM[NT], PL[NT], PC[NT];
extern int64_t *NS, *NS2; /* integers: by hand (and literals); every power of two +-1 too */
extern int NNS, NNS2;
/* numbers written in the sources: LQ[0..nLQ-1], the first nLN of them on lines
 * the committed tree does not have (and numbers derived from those) */
extern Q *LQ;
extern int nLQ, nLN;
void lits(void);
#endif
