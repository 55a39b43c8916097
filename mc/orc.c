#include "orc.h"
const Q QPI = 3.14159265358979323846264338327950288419716939937510582f128;
const Q QLN2 = 0.693147180559945309417232121458176568075500134360255254f128;
const Q QLN10 = 2.30258509299404568401799145468436420760110148862877298f128;
#define T Q
#define M(f) f##f128
#define O(n) oq_##n
#define N_(n) nq_##n
#include "un.inc"
#undef T
#undef M
#undef O
#undef N_
#define T long double
#define M(f) f##l
#define O(n) ol_##n
#define N_(n) nl_##n
#include "un.inc"
#undef T
#undef M
#undef O
#undef N_
#define EQ_(n) oq_##n,
#define EL_(n) ol_##n,
const oq1 OQ1[NU] = { UNARY(EQ_) };
const ol1 OL1[NU] = { UNARY(EL_) };

static int period_class(int u)
{
	switch (u) {
	case U_sin: case U_cos: case U_tan: case U_cot: case U_sec: case U_csc:
		return 1;
	case U_sin_pi_times: case U_cos_pi_times: case U_tan_pi_times: case U_cot_pi_times:
	case U_sec_pi_times: case U_csc_pi_times:
		return 2;
	}
	return 0;
}
static int has_pole(int u)
{
	switch (u) {
	case U_tan: case U_cot: case U_sec: case U_csc:
	case U_tan_pi_times: case U_cot_pi_times: case U_sec_pi_times: case U_csc_pi_times:
		return 1;
	}
	return 0;
}
static int bounded(int u) /* 1: |y|<=1, 2: |y|>=1 */
{
	switch (u) {
	case U_sin: case U_cos: case U_sin_pi_times: case U_cos_pi_times:
		return 1;
	case U_sec: case U_csc: case U_sec_pi_times: case U_csc_pi_times:
		return 2;
	}
	return 0;
}
/* argument perturbation the library's carrier arithmetic may introduce */
static Q delta1(int u, int ty, int64_t t)
{
	Q d = ISLIN(ty) ? 0 : delta(ty, t);
	if (d == 0 && tN[ty] == 64)
		switch (u) { /* reciprocal in extended precision */
		case U_arcsec: case U_arccsc: case U_arsech: case U_arcsec_over_pi: case U_arccsc_over_pi:
			d = (Q)0x1p-62;
		}
	if (period_class(u) == 2 && d < (Q)0x1p-62)
		d = (Q)0x1p-62; /* pi in extended precision */
	return d;
}
struct hull { Q lo, hi; int naroK, zeroK; };

/* exact position and the acceptance hull at perturbation d; 0 if undefined */
static int eval1(int u, int ty, Q x, Q d, Q *P, struct hull *h)
{
	Q y, p;
	int k = OQ1[u](x, &y);
	h->naroK = h->zeroK = 0;
	if (k == KN)
		return 0;
	if (k != KV)
		*P = k == KTP ? 1 : -1;
	else
		*P = y == 0 ? 0 : qspos(ty, y, y < 0);
	h->lo = h->hi = *P;
	if (k == KV && y == 0) {
		h->zeroK = 1;
		return 1;
	}
	if (d == 0 || k != KV)
		return 1;
	int pc = period_class(u);
	Q mx = (Q)maxc(tN[ty]);
	if (pc && fabsf128(x) * d * (pc == 2 ? QPI : 1) > (Q)0.125) {
		Q one = (Q)onec(tN[ty]);
		if (bounded(u) == 1)
			h->lo = -one, h->hi = one;
		else
			h->lo = -mx, h->hi = mx;
		h->naroK = pc == 2 && has_pole(u);
		h->zeroK = bounded(u) != 2;
		return 1;
	}
	int sgn[2] = { 0, 0 }, undef = 0;
	Q yy[2] = { 0, 0 };
	for (int s = 0; s < 2; s++) {
		int kk = OQ1[u](x * (s ? 1 + d : 1 - d), &yy[s]);
		if (kk == KN) {
			undef = 1;
			continue;
		}
		if (kk != KV) {
			p = kk == KTP ? 1 : -1;
			sgn[s] = kk == KTP ? 1 : -1;
		} else {
			sgn[s] = yy[s] < 0 ? -1 : 1;
			p = yy[s] == 0 ? 0 : qspos(ty, yy[s], yy[s] < 0);
		}
		if (p < h->lo)
			h->lo = p;
		if (p > h->hi)
			h->hi = p;
	}
	if (pc) {
		/* extremum inside the interval: relative change below (dx)^2 */
		Q e = x * d * (pc == 2 ? QPI : 1), q;
		for (int s = -1; s <= 1; s += 2) {
			q = qspos(ty, y * (1 + s * e * e), y < 0);
			if (q < h->lo)
				h->lo = q;
			if (q > h->hi)
				h->hi = q;
		}
		if (bounded(u) == 1) {
			Q one = (Q)onec(tN[ty]);
			if (h->hi > one)
				h->hi = one;
			if (h->lo < -one)
				h->lo = -one;
		}
	}
	if (has_pole(u) && (undef || (sgn[0] * sgn[1] < 0 && fabsf128(y) > 1))) {
		/* pole inside: any large magnitude of either sign, or NaR */
		h->lo = -mx, h->hi = mx;
		h->naroK = pc == 2;
	} else if (h->lo < 0 && h->hi > 0)
		h->zeroK = 1;
	return 1;
}
static int inhull(const struct hull *h, int64_t r, Q sl)
{
	if (r == 0)
		return h->zeroK;
	return (Q)r >= h->lo - sl && (Q)r <= h->hi + sl;
}

static int minus1_explained(int u, int ty, Q x, int64_t r)
{
	/* 2^x-1 and 10^x-1 computed by subtracting one from the power lose the
	 * result to cancellation: accept an absolute error of 2^-62 (2^-52 if
	 * the carrier is double) near zero */
	Q y, e = (Q)0x1p-62, p[2];
	if (OQ1[u](x, &y) != KV || fabsf128(y) > (Q)0.5)
		return 0;
	for (int s = 0; s < 2; s++) {
		Q v = y + (s ? e : -e);
		p[s] = v == 0 ? 0 : qspos(ty, v, v < 0);
	}
	if (r == 0)
		return p[0] <= 0 && p[1] >= 0;
	return (Q)r >= p[0] - 1 && (Q)r <= p[1] + 1;
}
static int arc_explained(int u, int ty, Q x, int64_t r, int64_t nr)
{
	/* arcsch/arcoth of 64-bit types go through double: the reciprocal is
	 * rounded to 53 bits and the result is a double */
	Q z = 1 / x, lo = 0, hi = 0;
	for (int s = -1; s <= 1; s++) {
		Q v = z * (1 + s * (Q)0x1.1p-53), y, p;
		if (u == U_arcoth && fabsf128(v) >= 1 - (Q)0x1p-54) {
			if (r == nr)
				return 1;
			y = z > 0 ? 64 : -64;
		} else
			y = u == U_arcoth ? atanhf128(v) : asinhf128(v);
		for (int q = -1; q <= 1; q++) {
			p = qspos(ty, y * (1 + q * (Q)0x1p-51), y < 0);
			if ((s == -1 && q == -1) || p < lo)
				lo = p;
			if ((s == -1 && q == -1) || p > hi)
				hi = p;
		}
	}
	return r != nr && (Q)r >= lo - 1 && (Q)r <= hi + 1;
}
void judge1(W *w, int u, int ty, int64_t t, int64_t r)
{
	int N = tN[ty];
	int64_t nr = nar(N);
	w->cmp++;
	outcome(w, (uint64_t)r ^ ((uint64_t)u << 58) ^ ((uint64_t)ty << 55));
	if (t == nr) {
		if (r != nr)
			fail(w, "%s_%s(NaR) = %s, not NaR", tname[ty], U[u].name, hx(ty, r));
		return;
	}
	if (N < 64) { /* fast path */
		long double xl = t ? lval(ty, t) : 0, yl;
		int k = OL1[u](xl, &yl);
		if (k == KV && yl != 0 && r != nr && r != 0 && !isnan(yl)) {
			long double p = lspos(ty, yl);
			if (fabsl((long double)r - p) <= 0.49L && !w->note)
				return;
		}
	}
	else if (!w->note && t && r && r != nr) { /* 64 bits, fast path */
		long double x = lval(ty, t), y, e0, e1;
		if (ISLIN(ty)) {
			if (OL1[u](x, &y) == KV && fabsl(lerr64(ty, y, r)) <= 0.6L)
				return;
		} else if (period_class(u) == 0 || fabsl(x) < 0x1p40L) {
			long double y1, z = t == onec(N) || t == -onec(N) ? 0 : 0x1p-57L;
			if (OL1[u](x - x * z, &y) == KV && OL1[u](x + x * z, &y1) == KV) {
				e0 = lerr64(ty, y, r), e1 = lerr64(ty, y1, r);
				if (fabsl(e0) < 0x1p30L && fabsl(e1) < 0x1p30L && (e0 < e1 ? e0 : e1) <= 0.5L && (e0 > e1 ? e0 : e1) >= -0.5L)
					return;
			}
		}
	}
	Q x = t ? qval(ty, t) : 0, P, sl = (Q)0.5 + slack(ty), d = delta1(u, ty, t);
	struct hull h;
	int def = eval1(u, ty, x, 0, &P, &h), ok;
	if (!ISLIN(ty) && d != 0 && period_class(u) == 2 && fabsf128(x) * d > (Q)0x1p-5) {
		/* the period is below the operand's own uncertainty: only the range is known */
		Q one = (Q)onec(N);
		if (r == nr ? has_pole(u) : bounded(u) == 1 ? fabsf128((Q)r) <= one : bounded(u) == 2 ? fabsf128((Q)r) >= one : 1)
			return;
	}
	note(w, "%s_%s(%s) = %s; exact position %s codes", tname[ty], U[u].name, hx(ty, t), hx(ty, r),
	     def ? qs(P) : "undefined");
	if (!def) {
		ok = r == nr;
		if (ok)
			return;
	} else {
		ok = r != nr && inhull(&h, r, sl);
		if (ok)
			return;
		if (d != 0 && !h.zeroK) {
			eval1(u, ty, x, d, &P, &h);
			if (r == nr ? h.naroK : inhull(&h, r, sl))
				return;
		}
	}
	/* recorded findings */
	if ((u == U_2_raised_minus_1 || u == U_10_raised_minus_1) && r != nr && minus1_explained(u, ty, x, r)) {
		known(w, "minus_one_cancellation", "%s_%s(%s) = %s instead of %s", tname[ty], U[u].name, hx(ty, t), hx(ty, r), qs(P));
		return;
	}
	if (period_class(u) == 2 && x < 0 && floorf128(2 * x) == 2 * x && r != nr) {
		/* exact zero or pole missed: accept what a relative error of
		 * 2^-60 in the product with pi explains */
		Q lim = fabsf128(x) * QPI * (Q)0x1p-60, q;
		q = qspos(ty, has_pole(u) && !(def && P == 0) ? 1 / lim : lim, 0);
		if (!def ? fabsf128((Q)r) >= q - 1 : P == 0 ? fabsf128((Q)r) <= q + 1 : 0) {
			known(w, "negative_pi_multiples", "%s_%s(%s) = %s instead of %s", tname[ty], U[u].name, hx(ty, t), hx(ty, r),
			      def ? "0" : "NaR");
			return;
		}
	}
	if ((u == U_arcsch || u == U_arcoth) && N == 64 && def && arc_explained(u, ty, x, r, nr)) {
		known(w, u == U_arcsch ? "arcsch_double" : "arcoth_double", "%s_%s(%s) = %s instead of %s", tname[ty], U[u].name, hx(ty, t), hx(ty, r), qs(P));
		return;
	}
	if (!def)
		fail(w, "%s_%s(%s) = %s, but the function is undefined there: NaR expected", tname[ty], U[u].name, hx(ty, t), hx(ty, r));
	else
		fail(w, "%s_%s(%s) = %s (%lld), exact result at code position %s", tname[ty], U[u].name, hx(ty, t), hx(ty, r),
		     (long long)r, qs(P));
}

/* ---- two operands ---- */
static int oq2(int b, Q x, Q z, Q *y)
{
	switch (b) {
	case B_addition: *y = x + z; return KV;
	case B_subtraction: *y = x - z; return KV;
	case B_multiplication: *y = x * z; return KV;
	case B_division: if (z == 0) return KN; *y = x / z; return KV;
	case B_hypotenuse: *y = hypotf128(x, z); return KV;
	case B_power:
		if ((x == 0 && z <= 0) || (x < 0 && floorf128(z) != z))
			return KN;
		if (x == 0) { *y = 0; return KV; }
		*y = powf128(x, z);
		if (*y == 0)
			return x < 0 && fmodf128(z, 2) != 0 ? KTN : KTP;
		return KV;
	case B_arctan2: *y = atan2f128(x, z); return KV;
	case B_arctan2_over_pi: *y = atan2f128(x, z) / QPI; return KV;
	}
	return KN;
}
int OL2(int b, long double x, long double z, long double *y)
{
	switch (b) {
	case B_addition: *y = x + z; return KV;
	case B_subtraction: *y = x - z; return KV;
	case B_multiplication: *y = x * z; return KV;
	case B_division: if (z == 0) return KN; *y = x / z; return KV;
	case B_hypotenuse: *y = hypotl(x, z); return KV;
	case B_power:
		if ((x == 0 && z <= 0) || (x < 0 && floorl(z) != z) || x == 0)
			return KN;
		*y = powl(x, z);
		return *y == 0 ? KN : KV;
	case B_arctan2: *y = atan2l(x, z); return KV;
	case B_arctan2_over_pi: *y = atan2l(x, z) / (long double)QPI; return KV;
	}
	return KN;
}
static Q delta2(int ty, int64_t t)
{
	return ISLIN(ty) || t == 0 ? 0 : delta(ty, t);
}
void judge2(W *w, int b, int ty, int64_t t, int64_t s, int64_t r)
{
	int N = tN[ty];
	int64_t nr = nar(N);
	w->cmp++;
	outcome(w, (uint64_t)r ^ ((uint64_t)b << 58) ^ ((uint64_t)ty << 55));
	if (t == nr || s == nr) {
		if (r == nr)
			return;
		if (b == B_power && ((t == nr && s == 0) || (s == nr && t == onec(N))) && r == onec(N))
			known(w, t == nr ? "power_nar_zero" : "power_one_nar", "%s_power(%s, %s) = %s", tname[ty], hx(ty, t), hx(ty, s), hx(ty, r));
		else
			fail(w, "%s_%s(%s, %s) = %s, not NaR", tname[ty], B[b].name, hx(ty, t), hx(ty, s), hx(ty, r));
		return;
	}
	if (N < 64) {
		long double yl;
		int k = OL2(b, t ? lval(ty, t) : 0, s ? lval(ty, s) : 0, &yl);
		if (k == KV && yl != 0 && r != nr && r != 0 && !isnan(yl)) {
			long double p = lspos(ty, yl);
			if (fabsl((long double)r - p) <= 0.49L && !w->note)
				return;
		}
	}
	else if (!w->note && r && r != nr) { /* 64 bits, fast path */
		long double x = t ? lval(ty, t) : 0, z = s ? lval(ty, s) : 0, y;
		if (ISLIN(ty)) {
			if (OL2(b, x, z, &y) == KV && fabsl(lerr64(ty, y, r)) <= 0.6L)
				return;
		} else if (b != B_power || x > 0) {
			long double dx = t == onec(N) || t == -onec(N) ? 0 : 0x1p-57L, dz = s == onec(N) || s == -onec(N) ? 0 : 0x1p-57L, e, lo = 1e20L, hi = -1e20L;
			int ok = 1;
			for (int i = -1; i <= 1 && ok; i += 2)
				for (int j = -1; j <= 1 && ok; j += 2) {
					ok = OL2(b, x + i * dx * x, z + j * dz * z, &y) == KV;
					e = ok ? lerr64(ty, y, r) : 0;
					ok = ok && fabsl(e) < 0x1p30L;
					lo = e < lo ? e : lo;
					hi = e > hi ? e : hi;
				}
			if (ok && lo <= 0.5L && hi >= -0.5L)
				return;
		}
	}
	Q x = t ? qval(ty, t) : 0, z = s ? qval(ty, s) : 0, y = 0, P = 0, sl = (Q)0.5 + slack(ty);
	int k = oq2(b, x, z, &y);
	/* a logarithmic exponent other than 0 and +-1 is never an integer */
	if (b == B_power && !ISLIN(ty) && x < 0 && z != 0 && z != 1 && z != -1)
		k = KN;
	if (k == KV)
		P = y == 0 ? 0 : qspos(ty, y, y < 0);
	else if (k != KN)
		P = k == KTP ? 1 : -1;
	note(w, "%s_%s(%s, %s) = %s; exact position %s codes", tname[ty], B[b].name, hx(ty, t), hx(ty, s), hx(ty, r),
	     k == KN ? "undefined" : qs(P));
	if (k == KN) {
		if (r == nr)
			return;
		if (b == B_power && t == 0 && s == 0 && r == onec(N)) {
			known(w, "power_zero_zero", "%s_power(0, 0) = %s", tname[ty], hx(ty, r));
			return;
		}
		/* a logarithmic exponent within rounding error of an integer
		 * (or too large to be known to be one) */
		if (b == B_power && x < 0) {
			Q d = delta2(ty, s), n = floorf128(z + (Q)0.5), p1, p2;
			if (d != 0 && fabsf128(z - n) <= d * fabsf128(z)) {
				/* magnitude as for |x|, either sign beyond 2^53 */
				Q m1 = powf128(-x * (1 - delta2(ty, t)), n * (1 - d)), m2 = powf128(-x * (1 + delta2(ty, t)), n * (1 + d));
				p1 = m1 == 0 ? 1 : qspos(ty, m1, 0);
				p2 = m2 == 0 ? 1 : qspos(ty, m2, 0);
				if (p1 > p2) { Q q = p1; p1 = p2; p2 = q; }
				Q a = fabsf128((Q)r);
				int par = fabsf128(z) * d >= (Q)0.5 ? 0 : fmodf128(n, 2) != 0 ? -1 : 1;
				if (r != 0 && a >= p1 - sl && a <= p2 + sl && (par == 0 || (r < 0) == (par < 0)))
					return;
			}
		}
		fail(w, "%s_%s(%s, %s) = %s, but the result is undefined: NaR expected", tname[ty], B[b].name, hx(ty, t), hx(ty, s), hx(ty, r));
		return;
	}
	if (r != nr && ((P == 0) == (r == 0)) && fabsf128((Q)r - P) <= sl)
		return;
	Q dx = delta2(ty, t), dz = delta2(ty, s);
	if ((dx != 0 || dz != 0) && r != nr && P != 0) {
		Q lo = P, hi = P, p;
		for (int i = -1; i <= 1; i++)
			for (int j = -1; j <= 1; j++) {
				Q v;
				int kk = oq2(b, x * (1 + i * dx), b == B_power && x < 0 ? z : z * (1 + j * dz), &v);
				if (kk == KN)
					continue;
				p = kk == KTP ? 1 : kk == KTN ? -1 : v == 0 ? 0 : qspos(ty, v, v < 0);
				if (p < lo)
					lo = p;
				if (p > hi)
					hi = p;
			}
		if (r != 0 && (Q)r >= lo - sl && (Q)r <= hi + sl)
			return;
	}
	fail(w, "%s_%s(%s, %s) = %s (%lld), exact result at code position %s", tname[ty], B[b].name, hx(ty, t), hx(ty, s),
	     hx(ty, r), (long long)r, qs(P));
}

/* ---- code and integer ---- */
void judgei(W *w, int f, int ty, int64_t t, int64_t n, int64_t r)
{
	int N = tN[ty], neg = t < 0 && n % 2 != 0, nk = 0;
	int64_t nr = nar(N);
	Q P = 0, sl = (Q)0.5 + slack(ty), ln = 0;
	w->cmp++;
	outcome(w, (uint64_t)r ^ ((uint64_t)f << 58) ^ ((uint64_t)ty << 55) ^ 0x5555);
	if (N < 64 && !w->note && t != 0 && t != nr && r != nr && r != 0 && (f == I_integer_power || (n != 0 && (t > 0 || n % 2 != 0)))) {
		long double l = logl(fabsl(lval(ty, t))), e = f == I_root ? l / n : l * n;
		if (fabsl(e) < 80) {
			e = lspos(ty, neg ? -expl(e) : expl(e));
			if (fabsl((long double)r - e) <= 0.49L)
				return;
		}
	}
	if (t == nr)
		nk = 1;
	else if (f == I_integer_power)
		nk = t == 0 && n <= 0;
	else
		nk = n == 0 || (t < 0 && n % 2 == 0) || (t == 0 && n < 0);
	if (!nk && t != 0) {
		ln = logf128(fabsf128(qval(ty, t)));
		P = f == I_root ? ln / n : ln * n;
		P = P > 400 ? (Q)maxc(N) : P < -400 ? 1 : qspos(ty, expf128(P), 0);
		if (neg)
			P = -P;
	}
	note(w, "%s_%s(%s, %lld) = %s; exact position %s codes", tname[ty], I[f].name, hx(ty, t), (long long)n, hx(ty, r),
	     nk ? "undefined" : qs(P));
	if (nk) {
		if (r != nr)
			fail(w, "%s_%s(%s, %lld) = %s, NaR expected", tname[ty], I[f].name, hx(ty, t), (long long)n, hx(ty, r));
		return;
	}
	if (r != nr && ((P == 0) == (r == 0)) && fabsf128((Q)r - P) <= sl)
		return;
	Q d = delta2(ty, t);
	if (d != 0 && r != nr && P != 0 && r != 0) {
		Q p[2];
		for (int s = 0; s < 2; s++) {
			Q e = ln + (s ? d : -d);
			e = f == I_root ? e / n : e * n;
			p[s] = e > 400 ? (Q)maxc(N) : e < -400 ? 1 : qspos(ty, expf128(e), 0);
		}
		if (p[0] > p[1]) { Q q = p[0]; p[0] = p[1]; p[1] = q; }
		Q a = fabsf128((Q)r);
		if ((r < 0) == neg && a >= p[0] - sl && a <= p[1] + sl)
			return;
	}
	fail(w, "%s_%s(%s, %lld) = %s (%lld), exact result at code position %s", tname[ty], I[f].name, hx(ty, t), (long long)n,
	     hx(ty, r), (long long)r, qs(P));
}
