/*
 * Exhaustive enumeration engine.  A property is a list of finite spaces;
 * every index of every space is visited by one of the forked workers, each
 * visit runs the real code and compares it with the reference model.
 */
#ifndef ENG_H
#define ENG_H
#include "fmt.h"
struct worker {
	int id;
	volatile uint64_t *hb;   /* heartbeat: index being visited */
	uint64_t states, trans, cmp;
	uint8_t *bm;             /* bitmap of hashed outcomes */
	int sp;                  /* current space */
	int replay;              /* 1: single visit, record messages */
	char *note;              /* when set, a visit writes what it did here */
	uint64_t i;
	int failed;
};
typedef struct worker W;
struct space;
typedef void (*spfn)(W *, const struct space *, uint64_t lo, uint64_t hi);
struct space {
	char name[96];
	uint64_t n;
	spfn fn;
	long a, b, c;
	uint64_t chunk;
};
extern int thorough;
void space(uint64_t n, spfn fn, long a, long b, long c, const char *fmt, ...)
	__attribute__((format(printf, 6, 7)));
void fail(W *, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
/* a deviation explained by a recorded finding; fails if it is not recorded */
void known(W *, const char *id, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
void note(W *, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
/* arguments are evaluated only when a note is wanted */
#define note(w, ...) do { if (__builtin_expect((w)->note != 0, 0)) (note)(w, __VA_ARGS__); } while (0)
extern volatile uint8_t *sp_stop;
static inline int tick(W *w, uint64_t i)
{
	*w->hb = i;
	w->i = i;
	return !sp_stop[w->sp];
}
#define EACH(w, i, lo, hi) for (uint64_t i = (lo); i < (hi) && tick((w), i); i++)
static inline void outcome(W *w, uint64_t h)
{
	h *= UINT64_C(0x9e3779b97f4a7c15);
	h ^= h >> 29;
	h *= UINT64_C(0xbf58476d1ce4e5b9);
	h >>= 64 - 23;
	w->bm[h >> 3] |= (uint8_t)(1 << (h & 7));
}
const char *hx(int ty, int64_t t); /* code as hex, rotating static buffers */
const char *qs(Q v);
#endif
