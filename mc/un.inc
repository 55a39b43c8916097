/*
 * Unary reference functions, included twice: T = _Float128 / long double,
 * M(f) = the libm function of that type, O(n) = name of the oracle.
 * Result: kind KN (undefined, NaR), KV (value *y; exact zero only if the
 * real result is zero), KTP/KTN (nonzero but too small for T, positive or
 * negative).
 */
static T N_(m1)(T x) { return M(fmod)(x, 1); }
static T N_(sinpi)(T x)
{
	T r = M(fmod)(x, 2), v;
	int s = 1;
	if (r < 0)
		r = -r, s = -s;
	if (r >= 1)
		r -= 1, s = -s;
	if (r > (T)0.5)
		r = 1 - r;
	v = r <= (T)0.25 ? M(sin)((T)QPI * r) : M(cos)((T)QPI * ((T)0.5 - r));
	return s < 0 ? -v : v;
}
static T N_(cospi)(T x)
{
	T r = M(fabs)(M(fmod)(x, 2)), v;
	int s = 1;
	if (r > 1)
		r = 2 - r;
	if (r > (T)0.5)
		r = 1 - r, s = -1;
	v = r == (T)0.5 ? 0 : r <= (T)0.25 ? M(cos)((T)QPI * r) : M(sin)((T)QPI * ((T)0.5 - r));
	return s < 0 ? -v : v;
}
#define DEF(n, dom, e) \
	static int O(n)(T x, T *y) { (void)x; if (!(dom)) return KN; *y = (e); return KV; }
#define TINY(n, dom, e, neg) \
	static int O(n)(T x, T *y) { (void)x; if (!(dom)) return KN; *y = (e); if (*y == 0) return (neg) ? KTN : KTP; return KV; }
TINY(10_raised, 1, M(exp10)(x), 0)
DEF(10_raised_minus_1, 1, M(expm1)(x * (T)QLN10))
TINY(2_raised, 1, M(exp2)(x), 0)
DEF(2_raised_minus_1, 1, M(expm1)(x * (T)QLN2))
DEF(absolute, 1, M(fabs)(x))
DEF(arccos, x >= -1 && x <= 1, M(acos)(x))
DEF(arccos_over_pi, x >= -1 && x <= 1, M(acos)(x) / (T)QPI)
DEF(arccot, 1, x == 0 ? (T)QPI / 2 : x > 0 ? M(atan)(1 / x) : (T)QPI + M(atan)(1 / x))
DEF(arccot_over_pi, 1, x == 0 ? (T)0.5 : x > 0 ? M(atan)(1 / x) / (T)QPI : 1 + M(atan)(1 / x) / (T)QPI)
DEF(arccsc, x <= -1 || x >= 1, M(asin)(1 / x))
DEF(arccsc_over_pi, x <= -1 || x >= 1, M(asin)(1 / x) / (T)QPI)
DEF(arcosh, x >= 1, M(acosh)(x))
DEF(arcoth, x < -1 || x > 1, M(atanh)(1 / x))
DEF(arcsch, x != 0, M(asinh)(1 / x))
DEF(arcsec, x <= -1 || x >= 1, M(acos)(1 / x))
DEF(arcsec_over_pi, x <= -1 || x >= 1, M(acos)(1 / x) / (T)QPI)
DEF(arcsin, x >= -1 && x <= 1, M(asin)(x))
DEF(arcsin_over_pi, x >= -1 && x <= 1, M(asin)(x) / (T)QPI)
DEF(arctan, 1, M(atan)(x))
DEF(arctan_over_pi, 1, M(atan)(x) / (T)QPI)
DEF(arsech, x > 0 && x <= 1, M(acosh)(1 / x))
DEF(arsinh, 1, M(asinh)(x))
DEF(artanh, x > -1 && x < 1, M(atanh)(x))
DEF(cos, 1, M(cos)(x))
DEF(cos_pi_times, 1, N_(cospi)(x))
DEF(cosh, 1, M(cosh)(x))
DEF(cot, x != 0, 1 / M(tan)(x))
DEF(cot_pi_times, N_(m1)(x) != 0, N_(cospi)(x) / N_(sinpi)(x))
DEF(coth, x != 0, 1 / M(tanh)(x))
DEF(csc, x != 0, 1 / M(sin)(x))
DEF(csc_pi_times, N_(m1)(x) != 0, 1 / N_(sinpi)(x))
TINY(csch, x != 0, 1 / M(sinh)(x), x < 0)
TINY(exp, 1, M(exp)(x), 0)
DEF(exp_minus_1, 1, M(expm1)(x))
DEF(inversion, x != 0, 1 / x)
DEF(lb, x > 0, M(log2)(x))
DEF(lb_1_plus, x > -1, M(log1p)(x) / (T)QLN2)
DEF(lg, x > 0, M(log10)(x))
DEF(lg_1_plus, x > -1, M(log1p)(x) / (T)QLN10)
DEF(ln, x > 0, M(log)(x))
DEF(ln_1_plus, x > -1, M(log1p)(x))
DEF(sec, 1, 1 / M(cos)(x))
DEF(sec_pi_times, M(fabs)(N_(m1)(x)) != (T)0.5, 1 / N_(cospi)(x))
TINY(sech, 1, 1 / M(cosh)(x), 0)
DEF(sign, 1, x > 0 ? 1 : x < 0 ? -1 : 0)
DEF(sin, 1, M(sin)(x))
DEF(sin_pi_times, 1, N_(sinpi)(x))
DEF(sinh, 1, M(sinh)(x))
DEF(square_root, x >= 0, M(sqrt)(x))
DEF(tan, 1, M(tan)(x))
DEF(tan_pi_times, M(fabs)(N_(m1)(x)) != (T)0.5, N_(sinpi)(x) / N_(cospi)(x))
DEF(tanh, 1, M(tanh)(x))
#undef DEF
#undef TINY
