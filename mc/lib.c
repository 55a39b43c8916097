/* written by tools/gen_lib.py */
#include "lib.h"
#include "takum.h"

#define W1(F) static int64_t u0_##F(int64_t a) { return takum8_##F((takum8)a); } static int64_t u1_##F(int64_t a) { return takum16_##F((takum16)a); } static int64_t u2_##F(int64_t a) { return takum32_##F((takum32)a); } static int64_t u3_##F(int64_t a) { return takum64_##F((takum64)a); } static int64_t u4_##F(int64_t a) { return takum_linear8_##F((takum_linear8)a); } static int64_t u5_##F(int64_t a) { return takum_linear16_##F((takum_linear16)a); } static int64_t u6_##F(int64_t a) { return takum_linear32_##F((takum_linear32)a); } static int64_t u7_##F(int64_t a) { return takum_linear64_##F((takum_linear64)a); }
#define W2(F) static int64_t b0_##F(int64_t a, int64_t b) { return takum8_##F((takum8)a, (takum8)b); } static int64_t b1_##F(int64_t a, int64_t b) { return takum16_##F((takum16)a, (takum16)b); } static int64_t b2_##F(int64_t a, int64_t b) { return takum32_##F((takum32)a, (takum32)b); } static int64_t b3_##F(int64_t a, int64_t b) { return takum64_##F((takum64)a, (takum64)b); } static int64_t b4_##F(int64_t a, int64_t b) { return takum_linear8_##F((takum_linear8)a, (takum_linear8)b); } static int64_t b5_##F(int64_t a, int64_t b) { return takum_linear16_##F((takum_linear16)a, (takum_linear16)b); } static int64_t b6_##F(int64_t a, int64_t b) { return takum_linear32_##F((takum_linear32)a, (takum_linear32)b); } static int64_t b7_##F(int64_t a, int64_t b) { return takum_linear64_##F((takum_linear64)a, (takum_linear64)b); }
#define W3(F) static int64_t i0_##F(int64_t a, int64_t b) { return takum8_##F((takum8)a, b); } static int64_t i1_##F(int64_t a, int64_t b) { return takum16_##F((takum16)a, b); } static int64_t i2_##F(int64_t a, int64_t b) { return takum32_##F((takum32)a, b); } static int64_t i3_##F(int64_t a, int64_t b) { return takum64_##F((takum64)a, b); } static int64_t i4_##F(int64_t a, int64_t b) { return takum_linear8_##F((takum_linear8)a, b); } static int64_t i5_##F(int64_t a, int64_t b) { return takum_linear16_##F((takum_linear16)a, b); } static int64_t i6_##F(int64_t a, int64_t b) { return takum_linear32_##F((takum_linear32)a, b); } static int64_t i7_##F(int64_t a, int64_t b) { return takum_linear64_##F((takum_linear64)a, b); }
UNARY(W1)
BINARY(W2)
INTARG(W3)
#define EU_(F) { #F, { u0_##F, u1_##F, u2_##F, u3_##F, u4_##F, u5_##F, u6_##F, u7_##F } },
const struct fun1 U[] = { UNARY(EU_) };
#define EB_(F) { #F, { b0_##F, b1_##F, b2_##F, b3_##F, b4_##F, b5_##F, b6_##F, b7_##F } },
const struct fun2 B[] = { BINARY(EB_) };
#define EI_(F) { #F, { i0_##F, i1_##F, i2_##F, i3_##F, i4_##F, i5_##F, i6_##F, i7_##F } },
const struct fun2 I[] = { INTARG(EI_) };
static int64_t f32_0(float f) { return takum8_from_float32(f); }
static int64_t f64_0(double f) { return takum8_from_float64(f); }
static int64_t fx_0(long double f) { return takum8_from_extended_float(f); }
static float t32_0(int64_t a) { return takum8_to_float32((takum8)a); }
static double t64_0(int64_t a) { return takum8_to_float64((takum8)a); }
static long double tx_0(int64_t a) { return takum8_to_extended_float((takum8)a); }
static int pr_0(int64_t a) { return takum8_precision((takum8)a); }
static int64_t x_0_1(int64_t a) { return takum8_from_takum16((takum16)a); }
static int64_t x_0_2(int64_t a) { return takum8_from_takum32((takum32)a); }
static int64_t x_0_3(int64_t a) { return takum8_from_takum64((takum64)a); }
static int64_t x_0_4(int64_t a) { return takum8_from_takum_linear8((takum_linear8)a); }
static int64_t x_0_5(int64_t a) { return takum8_from_takum_linear16((takum_linear16)a); }
static int64_t x_0_6(int64_t a) { return takum8_from_takum_linear32((takum_linear32)a); }
static int64_t x_0_7(int64_t a) { return takum8_from_takum_linear64((takum_linear64)a); }
static int64_t f32_1(float f) { return takum16_from_float32(f); }
static int64_t f64_1(double f) { return takum16_from_float64(f); }
static int64_t fx_1(long double f) { return takum16_from_extended_float(f); }
static float t32_1(int64_t a) { return takum16_to_float32((takum16)a); }
static double t64_1(int64_t a) { return takum16_to_float64((takum16)a); }
static long double tx_1(int64_t a) { return takum16_to_extended_float((takum16)a); }
static int pr_1(int64_t a) { return takum16_precision((takum16)a); }
static int64_t x_1_0(int64_t a) { return takum16_from_takum8((takum8)a); }
static int64_t x_1_2(int64_t a) { return takum16_from_takum32((takum32)a); }
static int64_t x_1_3(int64_t a) { return takum16_from_takum64((takum64)a); }
static int64_t x_1_4(int64_t a) { return takum16_from_takum_linear8((takum_linear8)a); }
static int64_t x_1_5(int64_t a) { return takum16_from_takum_linear16((takum_linear16)a); }
static int64_t x_1_6(int64_t a) { return takum16_from_takum_linear32((takum_linear32)a); }
static int64_t x_1_7(int64_t a) { return takum16_from_takum_linear64((takum_linear64)a); }
static int64_t f32_2(float f) { return takum32_from_float32(f); }
static int64_t f64_2(double f) { return takum32_from_float64(f); }
static int64_t fx_2(long double f) { return takum32_from_extended_float(f); }
static float t32_2(int64_t a) { return takum32_to_float32((takum32)a); }
static double t64_2(int64_t a) { return takum32_to_float64((takum32)a); }
static long double tx_2(int64_t a) { return takum32_to_extended_float((takum32)a); }
static int pr_2(int64_t a) { return takum32_precision((takum32)a); }
static int64_t x_2_0(int64_t a) { return takum32_from_takum8((takum8)a); }
static int64_t x_2_1(int64_t a) { return takum32_from_takum16((takum16)a); }
static int64_t x_2_3(int64_t a) { return takum32_from_takum64((takum64)a); }
static int64_t x_2_4(int64_t a) { return takum32_from_takum_linear8((takum_linear8)a); }
static int64_t x_2_5(int64_t a) { return takum32_from_takum_linear16((takum_linear16)a); }
static int64_t x_2_6(int64_t a) { return takum32_from_takum_linear32((takum_linear32)a); }
static int64_t x_2_7(int64_t a) { return takum32_from_takum_linear64((takum_linear64)a); }
static int64_t f32_3(float f) { return takum64_from_float32(f); }
static int64_t f64_3(double f) { return takum64_from_float64(f); }
static int64_t fx_3(long double f) { return takum64_from_extended_float(f); }
static float t32_3(int64_t a) { return takum64_to_float32((takum64)a); }
static double t64_3(int64_t a) { return takum64_to_float64((takum64)a); }
static long double tx_3(int64_t a) { return takum64_to_extended_float((takum64)a); }
static int pr_3(int64_t a) { return takum64_precision((takum64)a); }
static int64_t x_3_0(int64_t a) { return takum64_from_takum8((takum8)a); }
static int64_t x_3_1(int64_t a) { return takum64_from_takum16((takum16)a); }
static int64_t x_3_2(int64_t a) { return takum64_from_takum32((takum32)a); }
static int64_t x_3_4(int64_t a) { return takum64_from_takum_linear8((takum_linear8)a); }
static int64_t x_3_5(int64_t a) { return takum64_from_takum_linear16((takum_linear16)a); }
static int64_t x_3_6(int64_t a) { return takum64_from_takum_linear32((takum_linear32)a); }
static int64_t x_3_7(int64_t a) { return takum64_from_takum_linear64((takum_linear64)a); }
static int64_t f32_4(float f) { return takum_linear8_from_float32(f); }
static int64_t f64_4(double f) { return takum_linear8_from_float64(f); }
static int64_t fx_4(long double f) { return takum_linear8_from_extended_float(f); }
static float t32_4(int64_t a) { return takum_linear8_to_float32((takum_linear8)a); }
static double t64_4(int64_t a) { return takum_linear8_to_float64((takum_linear8)a); }
static long double tx_4(int64_t a) { return takum_linear8_to_extended_float((takum_linear8)a); }
static int pr_4(int64_t a) { return takum_linear8_precision((takum_linear8)a); }
static int64_t x_4_0(int64_t a) { return takum_linear8_from_takum8((takum8)a); }
static int64_t x_4_1(int64_t a) { return takum_linear8_from_takum16((takum16)a); }
static int64_t x_4_2(int64_t a) { return takum_linear8_from_takum32((takum32)a); }
static int64_t x_4_3(int64_t a) { return takum_linear8_from_takum64((takum64)a); }
static int64_t x_4_5(int64_t a) { return takum_linear8_from_takum_linear16((takum_linear16)a); }
static int64_t x_4_6(int64_t a) { return takum_linear8_from_takum_linear32((takum_linear32)a); }
static int64_t x_4_7(int64_t a) { return takum_linear8_from_takum_linear64((takum_linear64)a); }
static int64_t f32_5(float f) { return takum_linear16_from_float32(f); }
static int64_t f64_5(double f) { return takum_linear16_from_float64(f); }
static int64_t fx_5(long double f) { return takum_linear16_from_extended_float(f); }
static float t32_5(int64_t a) { return takum_linear16_to_float32((takum_linear16)a); }
static double t64_5(int64_t a) { return takum_linear16_to_float64((takum_linear16)a); }
static long double tx_5(int64_t a) { return takum_linear16_to_extended_float((takum_linear16)a); }
static int pr_5(int64_t a) { return takum_linear16_precision((takum_linear16)a); }
static int64_t x_5_0(int64_t a) { return takum_linear16_from_takum8((takum8)a); }
static int64_t x_5_1(int64_t a) { return takum_linear16_from_takum16((takum16)a); }
static int64_t x_5_2(int64_t a) { return takum_linear16_from_takum32((takum32)a); }
static int64_t x_5_3(int64_t a) { return takum_linear16_from_takum64((takum64)a); }
static int64_t x_5_4(int64_t a) { return takum_linear16_from_takum_linear8((takum_linear8)a); }
static int64_t x_5_6(int64_t a) { return takum_linear16_from_takum_linear32((takum_linear32)a); }
static int64_t x_5_7(int64_t a) { return takum_linear16_from_takum_linear64((takum_linear64)a); }
static int64_t f32_6(float f) { return takum_linear32_from_float32(f); }
static int64_t f64_6(double f) { return takum_linear32_from_float64(f); }
static int64_t fx_6(long double f) { return takum_linear32_from_extended_float(f); }
static float t32_6(int64_t a) { return takum_linear32_to_float32((takum_linear32)a); }
static double t64_6(int64_t a) { return takum_linear32_to_float64((takum_linear32)a); }
static long double tx_6(int64_t a) { return takum_linear32_to_extended_float((takum_linear32)a); }
static int pr_6(int64_t a) { return takum_linear32_precision((takum_linear32)a); }
static int64_t x_6_0(int64_t a) { return takum_linear32_from_takum8((takum8)a); }
static int64_t x_6_1(int64_t a) { return takum_linear32_from_takum16((takum16)a); }
static int64_t x_6_2(int64_t a) { return takum_linear32_from_takum32((takum32)a); }
static int64_t x_6_3(int64_t a) { return takum_linear32_from_takum64((takum64)a); }
static int64_t x_6_4(int64_t a) { return takum_linear32_from_takum_linear8((takum_linear8)a); }
static int64_t x_6_5(int64_t a) { return takum_linear32_from_takum_linear16((takum_linear16)a); }
static int64_t x_6_7(int64_t a) { return takum_linear32_from_takum_linear64((takum_linear64)a); }
static int64_t f32_7(float f) { return takum_linear64_from_float32(f); }
static int64_t f64_7(double f) { return takum_linear64_from_float64(f); }
static int64_t fx_7(long double f) { return takum_linear64_from_extended_float(f); }
static float t32_7(int64_t a) { return takum_linear64_to_float32((takum_linear64)a); }
static double t64_7(int64_t a) { return takum_linear64_to_float64((takum_linear64)a); }
static long double tx_7(int64_t a) { return takum_linear64_to_extended_float((takum_linear64)a); }
static int pr_7(int64_t a) { return takum_linear64_precision((takum_linear64)a); }
static int64_t x_7_0(int64_t a) { return takum_linear64_from_takum8((takum8)a); }
static int64_t x_7_1(int64_t a) { return takum_linear64_from_takum16((takum16)a); }
static int64_t x_7_2(int64_t a) { return takum_linear64_from_takum32((takum32)a); }
static int64_t x_7_3(int64_t a) { return takum_linear64_from_takum64((takum64)a); }
static int64_t x_7_4(int64_t a) { return takum_linear64_from_takum_linear8((takum_linear8)a); }
static int64_t x_7_5(int64_t a) { return takum_linear64_from_takum_linear16((takum_linear16)a); }
static int64_t x_7_6(int64_t a) { return takum_linear64_from_takum_linear32((takum_linear32)a); }
const struct conv V[NT] = {{ f32_0, f64_0, fx_0, t32_0, t64_0, tx_0, pr_0 },{ f32_1, f64_1, fx_1, t32_1, t64_1, tx_1, pr_1 },{ f32_2, f64_2, fx_2, t32_2, t64_2, tx_2, pr_2 },{ f32_3, f64_3, fx_3, t32_3, t64_3, tx_3, pr_3 },{ f32_4, f64_4, fx_4, t32_4, t64_4, tx_4, pr_4 },{ f32_5, f64_5, fx_5, t32_5, t64_5, tx_5, pr_5 },{ f32_6, f64_6, fx_6, t32_6, t64_6, tx_6, pr_6 },{ f32_7, f64_7, fx_7, t32_7, t64_7, tx_7, pr_7 }};
const f1 X[NT][NT] = {{0,x_0_1,x_0_2,x_0_3,x_0_4,x_0_5,x_0_6,x_0_7},
{x_1_0,0,x_1_2,x_1_3,x_1_4,x_1_5,x_1_6,x_1_7},
{x_2_0,x_2_1,0,x_2_3,x_2_4,x_2_5,x_2_6,x_2_7},
{x_3_0,x_3_1,x_3_2,0,x_3_4,x_3_5,x_3_6,x_3_7},
{x_4_0,x_4_1,x_4_2,x_4_3,0,x_4_5,x_4_6,x_4_7},
{x_5_0,x_5_1,x_5_2,x_5_3,x_5_4,0,x_5_6,x_5_7},
{x_6_0,x_6_1,x_6_2,x_6_3,x_6_4,x_6_5,0,x_6_7},
{x_7_0,x_7_1,x_7_2,x_7_3,x_7_4,x_7_5,x_7_6,0}};
const struct cst K[] = {
	{ "NAR", { TAKUM8_NAR, TAKUM16_NAR, TAKUM32_NAR, TAKUM64_NAR, TAKUM_LINEAR8_NAR, TAKUM_LINEAR16_NAR, TAKUM_LINEAR32_NAR, TAKUM_LINEAR64_NAR } },
	{ "POSITIVE_MINIMUM", { TAKUM8_POSITIVE_MINIMUM, TAKUM16_POSITIVE_MINIMUM, TAKUM32_POSITIVE_MINIMUM, TAKUM64_POSITIVE_MINIMUM, TAKUM_LINEAR8_POSITIVE_MINIMUM, TAKUM_LINEAR16_POSITIVE_MINIMUM, TAKUM_LINEAR32_POSITIVE_MINIMUM, TAKUM_LINEAR64_POSITIVE_MINIMUM } },
	{ "POSITIVE_MAXIMUM", { TAKUM8_POSITIVE_MAXIMUM, TAKUM16_POSITIVE_MAXIMUM, TAKUM32_POSITIVE_MAXIMUM, TAKUM64_POSITIVE_MAXIMUM, TAKUM_LINEAR8_POSITIVE_MAXIMUM, TAKUM_LINEAR16_POSITIVE_MAXIMUM, TAKUM_LINEAR32_POSITIVE_MAXIMUM, TAKUM_LINEAR64_POSITIVE_MAXIMUM } },
	{ "2_PI", { TAKUM8_2_PI, TAKUM16_2_PI, TAKUM32_2_PI, TAKUM64_2_PI, TAKUM_LINEAR8_2_PI, TAKUM_LINEAR16_2_PI, TAKUM_LINEAR32_2_PI, TAKUM_LINEAR64_2_PI } },
	{ "2_PI_OVER_3", { TAKUM8_2_PI_OVER_3, TAKUM16_2_PI_OVER_3, TAKUM32_2_PI_OVER_3, TAKUM64_2_PI_OVER_3, TAKUM_LINEAR8_2_PI_OVER_3, TAKUM_LINEAR16_2_PI_OVER_3, TAKUM_LINEAR32_2_PI_OVER_3, TAKUM_LINEAR64_2_PI_OVER_3 } },
	{ "2_PI_OVER_5", { TAKUM8_2_PI_OVER_5, TAKUM16_2_PI_OVER_5, TAKUM32_2_PI_OVER_5, TAKUM64_2_PI_OVER_5, TAKUM_LINEAR8_2_PI_OVER_5, TAKUM_LINEAR16_2_PI_OVER_5, TAKUM_LINEAR32_2_PI_OVER_5, TAKUM_LINEAR64_2_PI_OVER_5 } },
	{ "3_PI", { TAKUM8_3_PI, TAKUM16_3_PI, TAKUM32_3_PI, TAKUM64_3_PI, TAKUM_LINEAR8_3_PI, TAKUM_LINEAR16_3_PI, TAKUM_LINEAR32_3_PI, TAKUM_LINEAR64_3_PI } },
	{ "3_PI_OVER_2", { TAKUM8_3_PI_OVER_2, TAKUM16_3_PI_OVER_2, TAKUM32_3_PI_OVER_2, TAKUM64_3_PI_OVER_2, TAKUM_LINEAR8_3_PI_OVER_2, TAKUM_LINEAR16_3_PI_OVER_2, TAKUM_LINEAR32_3_PI_OVER_2, TAKUM_LINEAR64_3_PI_OVER_2 } },
	{ "3_PI_OVER_4", { TAKUM8_3_PI_OVER_4, TAKUM16_3_PI_OVER_4, TAKUM32_3_PI_OVER_4, TAKUM64_3_PI_OVER_4, TAKUM_LINEAR8_3_PI_OVER_4, TAKUM_LINEAR16_3_PI_OVER_4, TAKUM_LINEAR32_3_PI_OVER_4, TAKUM_LINEAR64_3_PI_OVER_4 } },
	{ "3_PI_OVER_5", { TAKUM8_3_PI_OVER_5, TAKUM16_3_PI_OVER_5, TAKUM32_3_PI_OVER_5, TAKUM64_3_PI_OVER_5, TAKUM_LINEAR8_3_PI_OVER_5, TAKUM_LINEAR16_3_PI_OVER_5, TAKUM_LINEAR32_3_PI_OVER_5, TAKUM_LINEAR64_3_PI_OVER_5 } },
	{ "4_PI", { TAKUM8_4_PI, TAKUM16_4_PI, TAKUM32_4_PI, TAKUM64_4_PI, TAKUM_LINEAR8_4_PI, TAKUM_LINEAR16_4_PI, TAKUM_LINEAR32_4_PI, TAKUM_LINEAR64_4_PI } },
	{ "4_PI_OVER_3", { TAKUM8_4_PI_OVER_3, TAKUM16_4_PI_OVER_3, TAKUM32_4_PI_OVER_3, TAKUM64_4_PI_OVER_3, TAKUM_LINEAR8_4_PI_OVER_3, TAKUM_LINEAR16_4_PI_OVER_3, TAKUM_LINEAR32_4_PI_OVER_3, TAKUM_LINEAR64_4_PI_OVER_3 } },
	{ "4_PI_OVER_5", { TAKUM8_4_PI_OVER_5, TAKUM16_4_PI_OVER_5, TAKUM32_4_PI_OVER_5, TAKUM64_4_PI_OVER_5, TAKUM_LINEAR8_4_PI_OVER_5, TAKUM_LINEAR16_4_PI_OVER_5, TAKUM_LINEAR32_4_PI_OVER_5, TAKUM_LINEAR64_4_PI_OVER_5 } },
	{ "5_PI", { TAKUM8_5_PI, TAKUM16_5_PI, TAKUM32_5_PI, TAKUM64_5_PI, TAKUM_LINEAR8_5_PI, TAKUM_LINEAR16_5_PI, TAKUM_LINEAR32_5_PI, TAKUM_LINEAR64_5_PI } },
	{ "5_PI_OVER_2", { TAKUM8_5_PI_OVER_2, TAKUM16_5_PI_OVER_2, TAKUM32_5_PI_OVER_2, TAKUM64_5_PI_OVER_2, TAKUM_LINEAR8_5_PI_OVER_2, TAKUM_LINEAR16_5_PI_OVER_2, TAKUM_LINEAR32_5_PI_OVER_2, TAKUM_LINEAR64_5_PI_OVER_2 } },
	{ "5_PI_OVER_3", { TAKUM8_5_PI_OVER_3, TAKUM16_5_PI_OVER_3, TAKUM32_5_PI_OVER_3, TAKUM64_5_PI_OVER_3, TAKUM_LINEAR8_5_PI_OVER_3, TAKUM_LINEAR16_5_PI_OVER_3, TAKUM_LINEAR32_5_PI_OVER_3, TAKUM_LINEAR64_5_PI_OVER_3 } },
	{ "5_PI_OVER_4", { TAKUM8_5_PI_OVER_4, TAKUM16_5_PI_OVER_4, TAKUM32_5_PI_OVER_4, TAKUM64_5_PI_OVER_4, TAKUM_LINEAR8_5_PI_OVER_4, TAKUM_LINEAR16_5_PI_OVER_4, TAKUM_LINEAR32_5_PI_OVER_4, TAKUM_LINEAR64_5_PI_OVER_4 } },
	{ "5_PI_OVER_6", { TAKUM8_5_PI_OVER_6, TAKUM16_5_PI_OVER_6, TAKUM32_5_PI_OVER_6, TAKUM64_5_PI_OVER_6, TAKUM_LINEAR8_5_PI_OVER_6, TAKUM_LINEAR16_5_PI_OVER_6, TAKUM_LINEAR32_5_PI_OVER_6, TAKUM_LINEAR64_5_PI_OVER_6 } },
	{ "6_PI", { TAKUM8_6_PI, TAKUM16_6_PI, TAKUM32_6_PI, TAKUM64_6_PI, TAKUM_LINEAR8_6_PI, TAKUM_LINEAR16_6_PI, TAKUM_LINEAR32_6_PI, TAKUM_LINEAR64_6_PI } },
	{ "6_PI_OVER_5", { TAKUM8_6_PI_OVER_5, TAKUM16_6_PI_OVER_5, TAKUM32_6_PI_OVER_5, TAKUM64_6_PI_OVER_5, TAKUM_LINEAR8_6_PI_OVER_5, TAKUM_LINEAR16_6_PI_OVER_5, TAKUM_LINEAR32_6_PI_OVER_5, TAKUM_LINEAR64_6_PI_OVER_5 } },
	{ "GAMMA", { TAKUM8_GAMMA, TAKUM16_GAMMA, TAKUM32_GAMMA, TAKUM64_GAMMA, TAKUM_LINEAR8_GAMMA, TAKUM_LINEAR16_GAMMA, TAKUM_LINEAR32_GAMMA, TAKUM_LINEAR64_GAMMA } },
	{ "LB_10", { TAKUM8_LB_10, TAKUM16_LB_10, TAKUM32_LB_10, TAKUM64_LB_10, TAKUM_LINEAR8_LB_10, TAKUM_LINEAR16_LB_10, TAKUM_LINEAR32_LB_10, TAKUM_LINEAR64_LB_10 } },
	{ "LB_E", { TAKUM8_LB_E, TAKUM16_LB_E, TAKUM32_LB_E, TAKUM64_LB_E, TAKUM_LINEAR8_LB_E, TAKUM_LINEAR16_LB_E, TAKUM_LINEAR32_LB_E, TAKUM_LINEAR64_LB_E } },
	{ "LG_2", { TAKUM8_LG_2, TAKUM16_LG_2, TAKUM32_LG_2, TAKUM64_LG_2, TAKUM_LINEAR8_LG_2, TAKUM_LINEAR16_LG_2, TAKUM_LINEAR32_LG_2, TAKUM_LINEAR64_LG_2 } },
	{ "LG_E", { TAKUM8_LG_E, TAKUM16_LG_E, TAKUM32_LG_E, TAKUM64_LG_E, TAKUM_LINEAR8_LG_E, TAKUM_LINEAR16_LG_E, TAKUM_LINEAR32_LG_E, TAKUM_LINEAR64_LG_E } },
	{ "LN_10", { TAKUM8_LN_10, TAKUM16_LN_10, TAKUM32_LN_10, TAKUM64_LN_10, TAKUM_LINEAR8_LN_10, TAKUM_LINEAR16_LN_10, TAKUM_LINEAR32_LN_10, TAKUM_LINEAR64_LN_10 } },
	{ "LN_2", { TAKUM8_LN_2, TAKUM16_LN_2, TAKUM32_LN_2, TAKUM64_LN_2, TAKUM_LINEAR8_LN_2, TAKUM_LINEAR16_LN_2, TAKUM_LINEAR32_LN_2, TAKUM_LINEAR64_LN_2 } },
	{ "ONE", { TAKUM8_ONE, TAKUM16_ONE, TAKUM32_ONE, TAKUM64_ONE, TAKUM_LINEAR8_ONE, TAKUM_LINEAR16_ONE, TAKUM_LINEAR32_ONE, TAKUM_LINEAR64_ONE } },
	{ "PHI", { TAKUM8_PHI, TAKUM16_PHI, TAKUM32_PHI, TAKUM64_PHI, TAKUM_LINEAR8_PHI, TAKUM_LINEAR16_PHI, TAKUM_LINEAR32_PHI, TAKUM_LINEAR64_PHI } },
	{ "PI", { TAKUM8_PI, TAKUM16_PI, TAKUM32_PI, TAKUM64_PI, TAKUM_LINEAR8_PI, TAKUM_LINEAR16_PI, TAKUM_LINEAR32_PI, TAKUM_LINEAR64_PI } },
	{ "PI_OVER_2", { TAKUM8_PI_OVER_2, TAKUM16_PI_OVER_2, TAKUM32_PI_OVER_2, TAKUM64_PI_OVER_2, TAKUM_LINEAR8_PI_OVER_2, TAKUM_LINEAR16_PI_OVER_2, TAKUM_LINEAR32_PI_OVER_2, TAKUM_LINEAR64_PI_OVER_2 } },
	{ "PI_OVER_3", { TAKUM8_PI_OVER_3, TAKUM16_PI_OVER_3, TAKUM32_PI_OVER_3, TAKUM64_PI_OVER_3, TAKUM_LINEAR8_PI_OVER_3, TAKUM_LINEAR16_PI_OVER_3, TAKUM_LINEAR32_PI_OVER_3, TAKUM_LINEAR64_PI_OVER_3 } },
	{ "PI_OVER_4", { TAKUM8_PI_OVER_4, TAKUM16_PI_OVER_4, TAKUM32_PI_OVER_4, TAKUM64_PI_OVER_4, TAKUM_LINEAR8_PI_OVER_4, TAKUM_LINEAR16_PI_OVER_4, TAKUM_LINEAR32_PI_OVER_4, TAKUM_LINEAR64_PI_OVER_4 } },
	{ "PI_OVER_5", { TAKUM8_PI_OVER_5, TAKUM16_PI_OVER_5, TAKUM32_PI_OVER_5, TAKUM64_PI_OVER_5, TAKUM_LINEAR8_PI_OVER_5, TAKUM_LINEAR16_PI_OVER_5, TAKUM_LINEAR32_PI_OVER_5, TAKUM_LINEAR64_PI_OVER_5 } },
	{ "PI_OVER_6", { TAKUM8_PI_OVER_6, TAKUM16_PI_OVER_6, TAKUM32_PI_OVER_6, TAKUM64_PI_OVER_6, TAKUM_LINEAR8_PI_OVER_6, TAKUM_LINEAR16_PI_OVER_6, TAKUM_LINEAR32_PI_OVER_6, TAKUM_LINEAR64_PI_OVER_6 } },
	{ "SQUARE_ROOT_2", { TAKUM8_SQUARE_ROOT_2, TAKUM16_SQUARE_ROOT_2, TAKUM32_SQUARE_ROOT_2, TAKUM64_SQUARE_ROOT_2, TAKUM_LINEAR8_SQUARE_ROOT_2, TAKUM_LINEAR16_SQUARE_ROOT_2, TAKUM_LINEAR32_SQUARE_ROOT_2, TAKUM_LINEAR64_SQUARE_ROOT_2 } },
	{ "SQUARE_ROOT_3", { TAKUM8_SQUARE_ROOT_3, TAKUM16_SQUARE_ROOT_3, TAKUM32_SQUARE_ROOT_3, TAKUM64_SQUARE_ROOT_3, TAKUM_LINEAR8_SQUARE_ROOT_3, TAKUM_LINEAR16_SQUARE_ROOT_3, TAKUM_LINEAR32_SQUARE_ROOT_3, TAKUM_LINEAR64_SQUARE_ROOT_3 } },
	{ "SQUARE_ROOT_5", { TAKUM8_SQUARE_ROOT_5, TAKUM16_SQUARE_ROOT_5, TAKUM32_SQUARE_ROOT_5, TAKUM64_SQUARE_ROOT_5, TAKUM_LINEAR8_SQUARE_ROOT_5, TAKUM_LINEAR16_SQUARE_ROOT_5, TAKUM_LINEAR32_SQUARE_ROOT_5, TAKUM_LINEAR64_SQUARE_ROOT_5 } },
	{ "SQUARE_ROOT_6", { TAKUM8_SQUARE_ROOT_6, TAKUM16_SQUARE_ROOT_6, TAKUM32_SQUARE_ROOT_6, TAKUM64_SQUARE_ROOT_6, TAKUM_LINEAR8_SQUARE_ROOT_6, TAKUM_LINEAR16_SQUARE_ROOT_6, TAKUM_LINEAR32_SQUARE_ROOT_6, TAKUM_LINEAR64_SQUARE_ROOT_6 } },
};
const int NK = sizeof(K) / sizeof(*K);
