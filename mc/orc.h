/* Reference functions and the acceptance rules built on them. */
#ifndef ORC_H
#define ORC_H
#include "eng.h"
#include "lib.h"
enum { KN, KV, KTP, KTN };
typedef int (*oq1)(Q, Q *);
typedef int (*ol1)(long double, long double *);
extern const oq1 OQ1[NU];
extern const ol1 OL1[NU];
int OL2(int b, long double x, long double z, long double *y);
extern const Q QPI, QLN2, QLN10;
#define QPI_ 3.14159265358979323846264338327950288419716939937510582f128
/* compare one call with the reference; r is the code the library returned */
void judge1(W *w, int u, int ty, int64_t t, int64_t r);
void judge2(W *w, int b, int ty, int64_t t, int64_t s, int64_t r);
void judgei(W *w, int f, int ty, int64_t t, int64_t n, int64_t r);
/* kind only: NaR exactly where undefined, 0 exactly where zero, sign */
#endif
