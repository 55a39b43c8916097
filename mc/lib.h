/* Tables over the public API of /repo, all through int64_t codes. */
#ifndef LIB_H
#define LIB_H
#include "fmt.h"
#define UNARY(X) \
	X(10_raised) X(10_raised_minus_1) X(2_raised) X(2_raised_minus_1) X(absolute) X(arccos) \
	X(arccos_over_pi) X(arccot) X(arccot_over_pi) X(arccsc) X(arccsc_over_pi) X(arcosh) \
	X(arcoth) X(arcsch) X(arcsec) X(arcsec_over_pi) X(arcsin) X(arcsin_over_pi) X(arctan) \
	X(arctan_over_pi) X(arsech) X(arsinh) X(artanh) X(cos) X(cos_pi_times) X(cosh) X(cot) \
	X(cot_pi_times) X(coth) X(csc) X(csc_pi_times) X(csch) X(exp) X(exp_minus_1) X(inversion) \
	X(lb) X(lb_1_plus) X(lg) X(lg_1_plus) X(ln) X(ln_1_plus) X(sec) X(sec_pi_times) X(sech) \
	X(sign) X(sin) X(sin_pi_times) X(sinh) X(square_root) X(tan) X(tan_pi_times) X(tanh)
#define BINARY(X) \
	X(addition) X(subtraction) X(multiplication) X(division) X(hypotenuse) X(power) \
	X(arctan2) X(arctan2_over_pi)
#define INTARG(X) X(integer_power) X(root)
#define EU(n) U_##n,
#define EB(n) B_##n,
#define EI(n) I_##n,
enum { UNARY(EU) NU };
enum { BINARY(EB) NB };
enum { INTARG(EI) NI };
typedef int64_t (*f1)(int64_t);
typedef int64_t (*f2)(int64_t, int64_t);
struct fun1 { const char *name; f1 w[NT]; };
struct fun2 { const char *name; f2 w[NT]; };
extern const struct fun1 U[NU];
extern const struct fun2 B[NB], I[NI];
struct conv {
	int64_t (*from32)(float), (*from64)(double), (*fromx)(long double);
	float (*to32)(int64_t);
	double (*to64)(int64_t);
	long double (*tox)(int64_t);
	int (*prec)(int64_t);
};
extern const struct conv V[NT];
extern const f1 X[NT][NT]; /* X[to][from]; null on the diagonal */
struct cst { const char *name; int64_t v[NT]; };
extern const struct cst K[];
extern const int NK;
#endif
