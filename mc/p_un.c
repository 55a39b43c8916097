/* C12..C16 and the unary half of C07-C10: single-argument functions */
#include "alpha.h"
#include "props.h"
void run_un(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int u = (int)sp->a, ty = (int)sp->b;
	EACH(w, i, lo, hi)
	{
		int64_t t = ua_at(&UA[ty], i), r = U[u].w[ty](t);
		w->states++;
		w->trans++;
		judge1(w, u, ty, t, r);
	}
}
static void add_un(const int *us, int n, const int *tys, int nty)
{
	for (int k = 0; k < nty; k++)
		for (int i = 0; i < n; i++)
			space(UA[tys[k]].n, run_un, us[i], tys[k], 0, "%s_%s/unary", tname[tys[k]], U[us[i]].name);
}
static const int all8[] = { T8, L8, T16, L16, T32, L32, T64, L64 };
#define ARR(...) (const int[]){ __VA_ARGS__ }, (int)(sizeof((int[]){ __VA_ARGS__ }) / sizeof(int))
static void go(const int *us, int n, int q32, int q64, int t32, int t64)
{
	alpha_pb = thorough ? (n <= 6 ? 23 : 22) : 19;
	alpha_init(thorough ? t32 : q32, thorough ? t64 : q64);
	add_un(us, n, all8, 8);
}
void c12(void) { go(ARR(U_exp, U_2_raised, U_10_raised, U_exp_minus_1, U_2_raised_minus_1, U_10_raised_minus_1), 6, 5, 8, 6); }
void c13(void) { go(ARR(U_ln, U_lb, U_lg, U_ln_1_plus, U_lb_1_plus, U_lg_1_plus), 6, 5, 8, 6); }
void c14(void) { go(ARR(U_sin, U_cos, U_tan, U_cot, U_sec, U_csc, U_sin_pi_times, U_cos_pi_times, U_tan_pi_times, U_cot_pi_times, U_sec_pi_times, U_csc_pi_times), 5, 4, 6, 5); }
void c15(void) { go(ARR(U_arcsin, U_arccos, U_arctan, U_arccot, U_arcsec, U_arccsc, U_arcsin_over_pi, U_arccos_over_pi, U_arctan_over_pi, U_arccot_over_pi, U_arcsec_over_pi, U_arccsc_over_pi), 5, 4, 6, 5); }
void c16(void) { go(ARR(U_sinh, U_cosh, U_tanh, U_coth, U_sech, U_csch, U_arsinh, U_arcosh, U_artanh, U_arcoth, U_arsech, U_arcsch), 5, 4, 6, 5); }
