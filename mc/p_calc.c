/*
 * C23: every bounded input of the real calculator program, judged by a
 * reference stack machine that calls the library directly.  One index of a
 * space is one run of the real binary on one session (a list of lines).
 */
#define _GNU_SOURCE
#include "alpha.h"
#include "props.h"
#include <ctype.h>
#include <stdarg.h>
#include <errno.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

/* ---- growing buffers ---- */
struct buf { char *p; size_t n, c; };
static void need(struct buf *b, size_t k)
{
	if (b->n + k + 1 > b->c)
		b->p = realloc(b->p, b->c = (b->n + k + 1) * 2);
}
static void put(struct buf *b, const char *fmt, ...)
{
	va_list ap;
	need(b, 400);
	va_start(ap, fmt);
	int k = vsnprintf(b->p + b->n, b->c - b->n, fmt, ap);
	va_end(ap);
	if ((size_t)k >= b->c - b->n) {
		need(b, (size_t)k);
		va_start(ap, fmt);
		k = vsnprintf(b->p + b->n, b->c - b->n, fmt, ap);
		va_end(ap);
	}
	b->n += (size_t)k;
}

/* ---- the machine ---- */
struct num { int ty; int64_t v[NT]; int isint; int64_t in; };
enum { O_SW, O_HELP, O_POW, O_PREC, O_INT, O_UN, O_BIN };
static const struct op { const char *id; int kind, f; } OP[] = {
	{ "?", O_HELP, 0 }, { "^", O_POW, 0 }, { "precision", O_PREC, 0 }, { "root", O_INT, I_root },
	{ "takum8", O_SW, T8 }, { "takum16", O_SW, T16 }, { "takum32", O_SW, T32 }, { "takum64", O_SW, T64 },
	{ "takum_linear8", O_SW, L8 }, { "takum_linear16", O_SW, L16 }, { "takum_linear32", O_SW, L32 }, { "takum_linear64", O_SW, L64 },
	{ "+", O_BIN, B_addition }, { "-", O_BIN, B_subtraction }, { "*", O_BIN, B_multiplication }, { "/", O_BIN, B_division },
	{ "hypotenuse", O_BIN, B_hypotenuse }, { "arctan2", O_BIN, B_arctan2 }, { "arctan2_over_pi", O_BIN, B_arctan2_over_pi },
	{ "abs", O_UN, U_absolute }, { "inv", O_UN, U_inversion }, { "sqrt", O_UN, U_square_root },
#define UN1(n) { #n, O_UN, U_##n },
	UN1(arccos) UN1(arccos_over_pi) UN1(arccot) UN1(arccot_over_pi) UN1(arccsc) UN1(arccsc_over_pi) UN1(arcosh) UN1(arcoth)
	UN1(arcsch) UN1(arcsec) UN1(arcsec_over_pi) UN1(arcsin) UN1(arcsin_over_pi) UN1(arctan) UN1(arctan_over_pi) UN1(arsech)
	UN1(arsinh) UN1(artanh) UN1(cos) UN1(cos_pi_times) UN1(cosh) UN1(cot) UN1(cot_pi_times) UN1(coth) UN1(csc) UN1(csc_pi_times)
	UN1(csch) UN1(exp) UN1(exp_minus_1) UN1(lb) UN1(lb_1_plus) UN1(lg) UN1(lg_1_plus) UN1(ln) UN1(ln_1_plus) UN1(sec)
	UN1(sec_pi_times) UN1(sech) UN1(sign) UN1(sin) UN1(sin_pi_times) UN1(sinh) UN1(tan) UN1(tan_pi_times) UN1(tanh) };
#define NOP ((int)(sizeof OP / sizeof *OP))
#define MAXST 4096
struct mach {
	int ty, noff, nst;
	struct num reg[26], st[MAXST];
	struct buf out;     /* expected text of the current line */
	char err[300];      /* expected error of the line, or empty */
	int help;
};
static void spread(struct num *n)
{
	for (int k = 0; k < NT; k++)
		if (k != n->ty)
			n->v[k] = X[k][n->ty](n->v[n->ty]);
}
static struct num result(int ty, int64_t r)
{
	struct num n = { .ty = ty };
	n.v[ty] = r;
	if (ISLIN(ty)) {
		Q v = r == nar(tN[ty]) ? (Q)0.5 : r ? qval(ty, r) : 0; /* exact */
		n.isint = fabsf128(v) < (Q)0x1p63 ? truncf128(v) == v : v == -(Q)0x1p63;
		n.in = n.isint ? (int64_t)v : 0;
	} else {
		n.isint = r == 0 || r == onec(tN[ty]) || r == -onec(tN[ty]);
		n.in = r == 0 ? 0 : r > 0 ? 1 : -1;
	}
	spread(&n);
	return n;
}
static int literal(struct mach *m, const char *tok, struct num *n)
{
	char *e;
	long double f;
	n->ty = m->ty;
	errno = 0;
	long long i = strtoll(tok, &e, 0);
	if (*e == 0) {
		n->isint = i != INT64_MAX;
		n->in = i;
		f = n->isint ? (long double)i : (long double)NAN;
	} else {
		f = strtold(tok, &e);
		if (*e)
			return 0;
		n->isint = f == 0 || f == 1 || f == -1;
		n->in = n->isint ? (int64_t)f : 0;
	}
	n->v[m->ty] = V[m->ty].fromx(f);
	spread(n);
	return 1;
}
/* 0: go on, 1: the line ends here */
static int token(struct mach *m, const char *tok)
{
	int k;
	struct num *a, *b, r;
	if (strlen(tok) == 1 && islower((unsigned char)tok[0])) {
		m->st[m->nst++] = m->reg[tok[0] - 'a'];
		return 0;
	}
	for (k = 0; k < NOP && strcmp(OP[k].id, tok); k++)
		;
	if (k == NOP) {
		if (!literal(m, tok, &r)) {
			snprintf(m->err, sizeof m->err, "invalid token '%.200s'", tok);
			return 1;
		}
		m->st[m->nst++] = r;
		return 0;
	}
	int nargs = OP[k].kind == O_SW || OP[k].kind == O_HELP ? 0 : OP[k].kind == O_UN || OP[k].kind == O_PREC ? 1 : 2;
	if (m->nst < nargs) {
		strcpy(m->err, "stack underflow");
		return 1;
	}
	m->nst -= nargs;
	a = &m->st[m->nst], b = a + 1;
	int ty = m->ty;
	switch (OP[k].kind) {
	case O_SW: m->ty = OP[k].f; return 1;
	case O_HELP: m->help = 1; return 1;
	case O_POW: r = result(ty, b->isint ? I[I_integer_power].w[ty](a->v[ty], b->in) : B[B_power].w[ty](a->v[ty], b->v[ty])); break;
	case O_INT:
		if (!b->isint)
			return 1;
		r = result(ty, I[OP[k].f].w[ty](a->v[ty], b->in));
		break;
	case O_PREC: r = result(ty, V[ty].fromx((long double)V[ty].prec(a->v[ty]))); break;
	case O_UN: r = result(ty, U[OP[k].f].w[ty](a->v[ty])); break;
	default: r = result(ty, B[OP[k].f].w[ty](a->v[ty], b->v[ty]));
	}
	m->st[m->nst++] = r;
	return 0;
}
static void line(struct mach *m, const char *s, size_t n)
{
	static char *w;
	static size_t wc;
	if (n + 1 > wc)
		w = realloc(w, wc = n + 1000);
	memcpy(w, s, n);
	w[n] = 0;
	m->nst = 0, m->out.n = 0, m->err[0] = 0, m->help = 0;
	need(&m->out, 1);
	m->out.p[0] = 0;
	int any = 0;
	for (char *p = w; ; ) {
		p += strspn(p, " \n");
		if (!*p)
			break;
		char *e = p + strcspn(p, " \n");
		int last = !*e;
		*e = 0;
		any = 1;
		if (token(m, p))
			return;
		if (last)
			break;
		p = e + 1;
	}
	if (!any)
		return;
	if (m->nst != 1) {
		strcpy(m->err, "invalid expression, final stack size is not one");
		return;
	}
	struct num *x = &m->st[0];
	put(&m->out, "%c \xe2\x86\x90 ", 'a' + m->noff);
	if (x->isint)
		put(&m->out, "%lld\n", (long long)x->in);
	else if (x->v[x->ty] == nar(tN[x->ty]))
		put(&m->out, "NaR\n");
	else
		put(&m->out, "%Lg\n", V[x->ty].tox(x->v[x->ty]));
	m->reg[m->noff] = *x;
	m->noff = (m->noff + 1) % 26;
}

/* ---- the real program ---- */
static char *slurp(int fd, size_t *n)
{
	off_t l = lseek(fd, 0, SEEK_END);
	char *p = malloc((size_t)l + 1);
	*n = (size_t)(pread(fd, p, (size_t)l, 0));
	p[*n] = 0;
	close(fd);
	return p;
}
static int run_real(const char *bin, const char *in, size_t n, char **out, size_t *no, char **err, size_t *ne)
{
	int fi = memfd_create("i", 0), fo = memfd_create("o", 0), fe = memfd_create("e", 0), st;
	if (fi < 0 || fo < 0 || fe < 0 || write(fi, in, n) != (ssize_t)n)
		_exit(9);
	lseek(fi, 0, SEEK_SET);
	pid_t p = fork();
	if (!p) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		struct rlimit c = { 25, 25 }, f = { 1 << 28, 1 << 28 };
		setrlimit(RLIMIT_CPU, &c);
		setrlimit(RLIMIT_FSIZE, &f);
		dup2(fi, 0), dup2(fo, 1), dup2(fe, 2);
		char *const av[] = { (char *)"calculator", 0 };
		char *const ev[] = { (char *)"ASAN_OPTIONS=detect_leaks=0:abort_on_error=1", (char *)"LC_ALL=C", 0 };
		execve(bin, av, ev);
		_exit(99);
	}
	waitpid(p, &st, 0);
	close(fi);
	*out = slurp(fo, no);
	*err = slurp(fe, ne);
	return st;
}
static const char *oneline(const char *s, size_t n)
{
	static char b[4][160];
	static int k;
	size_t j = 0;
	k = (k + 1) & 3;
	for (size_t i = 0; i < n && j < 150; i++)
		if (s[i] == '\n')
			b[k][j++] = '|';
		else
			b[k][j++] = s[i];
	b[k][j] = 0;
	return b[k];
}
/* one session through the program and the machine */
static void session(W *w, const char *in, size_t n, int asan)
{
	static struct mach m;
	char *out, *err;
	size_t no, ne;
	const char *bin = getenv(asan ? "CALC_ASAN" : "CALC_BIN");
	int st = run_real(bin, in, n, &out, &no, &err, &ne);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 99) {
		fprintf(stderr, "cannot run %s\n", bin);
		_exit(9);
	}
	w->states++;
	memset(&m.reg, 0, sizeof m.reg);
	for (int k = 0; k < 26; k++)
		m.reg[k].isint = 1;
	m.ty = T64, m.noff = 0;
	if (w->note)
		note(w, "%zu bytes of input starting \"%s\"", n, oneline(in, n));
	char *o = strstr(out, "> "), *e = err;
	if (!o) {
		fail(w, "no prompt; output \"%s\"", oneline(out, no));
		goto end;
	}
	o += 2;
	int ln = 0;
	for (const char *p = in; p < in + n; ) {
		const char *q = memchr(p, '\n', (size_t)(in + n - p));
		size_t l = q ? (size_t)(q - p) + 1 : (size_t)(in + n - p);
		line(&m, p, l);
		ln++;
		w->trans++, w->cmp++;
		if (m.help) {
			/* free text that names every operator, up to the next prompt */
			char *h = strstr(o, "\n> ");
			if (!h) {
				fail(w, "line %d \"%s\": the help text is not followed by a prompt", ln, oneline(p, l));
				goto end;
			}
			for (int k = 0; k < NOP; k++) {
				char *f = strstr(o, OP[k].id);
				if (!f || f > h) {
					fail(w, "line %d \"%s\": the help text does not name %s", ln, oneline(p, l), OP[k].id);
					goto end;
				}
			}
			o = h + 3;
		} else {
			size_t k = m.out.n;
			if (strncmp(o, m.out.p, k) || strncmp(o + k, "> ", 2)) {
				fail(w, "line %d \"%s\" of the session prints \"%s\", expected \"%s> \"", ln, oneline(p, l),
				     oneline(o, strcspn(o, "\n") + 3 < strlen(o) ? strcspn(o, "\n") + 3 : strlen(o)), oneline(m.out.p, k));
				goto end;
			}
			o += k + 2;
		}
		outcome(w, m.out.n > 5 ? (uint64_t)m.st[0].v[m.ty] ^ (uint64_t)m.ty << 60 : m.err[0] ? (uint64_t)m.err[0] : 7);
		if (m.err[0]) {
			size_t k = strcspn(e, "\n");
			int ok = k > 0 && e[k] == '\n';
			if (ok && m.err[0] == 'i' && m.err[8] == 't') { /* the token is named */
				char *t = strndup(m.err + 15, strlen(m.err) - 16), *f = strstr(e, t);
				ok = f && f < e + k;
				free(t);
			}
			if (!ok) {
				fail(w, "line %d \"%s\" reports \"%s\", expected \"%s\"", ln, oneline(p, l), oneline(e, k), m.err);
				goto end;
			}
			e += k + 1;
		}
		p += l;
	}
	if (!WIFEXITED(st) || WEXITSTATUS(st))
		fail(w, "the program ended with signal %d, status %d after \"%s\": %s", WIFSIGNALED(st) ? WTERMSIG(st) : 0,
		     WIFEXITED(st) ? WEXITSTATUS(st) : 0, oneline(out, no), oneline(err, ne));
	else if (*o)
		fail(w, "extra output \"%s\"", oneline(o, strlen(o)));
	else if (*e)
		fail(w, "unexpected error report \"%s\"", oneline(e, strlen(e)));
end:
	free(out);
	free(err);
}

/* ---- spaces ---- */
static struct buf I_;
/* an expression above d other operands, which are then added to its result */
static void deep(const char *x, int d)
{
	for (int j = 0; j < d; j++)
		put(&I_, j % 5 == 4 ? "-0.0 " : "0 ");
	put(&I_, "%s", x);
	for (int j = 0; j < d; j++)
		put(&I_, " +");
	put(&I_, "\n");
}
static const char *const TY[] = { "takum8", "takum16", "takum32", "takum64", "takum_linear8", "takum_linear16", "takum_linear32", "takum_linear64" };
/* one token of every class the machine tells apart */
static const char *const TK[] = { "2", "-3", "0", "0.5", "nan", "a", "b", "z", "+", "-", "*", "/", "^", "root", "abs", "sqrt", "ln", "cos_pi_times",
	"precision", "hypotenuse", "foo", "?", "takum16", "takum_linear32", "0x10", "1e3", "-1.0", "A", "2x" };
#define NTK ((int)(sizeof TK / sizeof *TK))
static void s_tok(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int d = (int)sp->a;
	EACH(w, i, lo, hi)
	{
		int ty = (int)(i % 8);
		uint64_t k = i / 8, rest = 1;
		I_.n = 0;
		const char *pre = "";
		char pb[200] = "";
		for (int j = 0; j < (int)sp->b; j++) {
			strcat(pb, TK[k % NTK]), strcat(pb, " ");
			k /= NTK;
		}
		pre = pb;
		for (int j = (int)sp->b; j < d; j++)
			rest *= NTK;
		put(&I_, "%s\n1.5\n-7\n", TY[ty]);
		for (uint64_t r = 0; r < rest; r++) {
			uint64_t q = r;
			put(&I_, "%s", pre);
			for (int j = (int)sp->b; j < d; j++)
				put(&I_, "%s%s", TK[q % NTK], j + 1 < d ? " " : ""), q /= NTK;
			put(&I_, "\n");
			if (strstr(I_.p + I_.n - 60 * (I_.n > 60), "takum"))
				put(&I_, "%s\n", TY[ty]);
		}
		session(w, I_.p, I_.n, (int)sp->c);
	}
}
static const char *const LT[] = { "0", "1", "-1", "2", "3", "-2", "0.5", "-0.25", "1.25", "100", "-1000", "300", "1e30", "-1e-30", "1e400", "inf", "nan", "-0",
	"0x1F", "017", "9223372036854775806", "9223372036854775807", "-9223372036854775807", "4611686018427387904", "1.0", "0.3333", "0x1.8p3", "63", "3.14159265358979", "-9223372036854775808", "0x7ffffffffffffffe", "9007199254740993", "+5", "infinity", "0777777777777777777777" };
#define NLT ((int)(sizeof LT / sizeof *LT))
static void s_ops(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	EACH(w, i, lo, hi)
	{
		int ty = (int)(i % 8), k = (int)(i / 8);
		const struct op *o = &OP[k];
		I_.n = 0;
		put(&I_, "%s\n", TY[ty]);
		for (int a = 0; a < NLT; a++) {
			put(&I_, "%s %s\n", LT[a], o->id);
			if (o->kind == O_SW)
				put(&I_, "%s\n", TY[ty]);
			for (int b = 0; b < NLT; b++) {
				put(&I_, "%s %s %s\n", LT[a], LT[b], o->id);
				if (o->kind == O_SW)
					put(&I_, "%s 2 +\n%s\n", LT[a], TY[ty]);
				if (b % 7 == (a + 3) % 7 && o->kind >= O_POW) {
					char x[200];
					snprintf(x, sizeof x, "%s %s %s", LT[a], LT[b], o->id);
					deep(x, 1 + (a + b) % 9);
				}
				if (b % 7 == a % 7)
					put(&I_, "%s %s %s %s\n%s %s %s 5 +\n", LT[b], LT[a], LT[b], o->id, LT[a], LT[b], o->id);
			}
		}
		put(&I_, "%s\n", o->id);
		session(w, I_.p, I_.n, (int)sp->c);
	}
}
/* registers of one type used by another */
static void s_cross(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	static const char *const v[] = { "2", "-3", "0.7", "1e20", "-1e-9", "0.1", "nan", "100000", "1.0001", "1e80", "1e-76" };
	EACH(w, i, lo, hi)
	{
		int t1 = (int)(i % 8), t2 = (int)(i / 8 % 8), k = (int)(i / 64);
		const struct op *o = &OP[k];
		I_.n = 0;
		put(&I_, "%s\n", TY[t1]);
		for (unsigned j = 0; j < sizeof v / sizeof *v; j++)
			put(&I_, "%s%s\n", v[j], j % 2 ? " 1 *" : ""); /* literal and computed registers */
		put(&I_, "%s\n", TY[t2]);
		for (int j = 0; j < 9; j++) {
			put(&I_, "%c %s\n%c\n", 'a' + j, o->id, 'a' + j);
			if (o->kind == O_SW)
				put(&I_, "%s\n", TY[t2]);
			put(&I_, "%c %c %s\n%c 3 %s\n2.5 %c %s\n", 'a' + j, 'a' + (j * 3 + 1) % 11, o->id, 'a' + j, o->id, 'a' + j, o->id);
			if (o->kind == O_SW)
				put(&I_, "%s\n", TY[t2]);
			else if (o->kind >= O_POW && j < 4) {
				char x[100];
				snprintf(x, sizeof x, "%c %c %s", "cbda"[j], "abch"[j], o->id);
				deep(x, 1 + 2 * j);
			}
		}
		session(w, I_.p, I_.n, (int)sp->c);
	}
}
/* registers of one type that lie on or right beside the rounding boundaries of
 * another (or, towards wider types, spread over all codes), read in that type */
static void s_ties(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	EACH(w, i, lo, hi)
	{
		int t1 = (int)(i % 8), t2 = (int)(i / 8), n1 = tN[t1], n2 = tN[t2], c = 0, off = 2;
		int64_t cs[13];
		I_.n = 0;
		put(&I_, "1\n2\n\n");
		for (int64_t k = -127; k <= 127; k++) {
			/* an 8-bit prefix, bits below it, and the half unit of t2 */
			int64_t m = (int64_t)((uint64_t)k << 56);
			if (n2 > 8)
				m ^= (int64_t)((uint64_t)(k * 0x9E3779B97F4A7C15ull) >> 8 & ~0ull << (64 - n2));
			if (n2 < 64)
				m |= (int64_t)1 << (63 - n2);
			for (int d = -1; d <= 1; d++) {
				int64_t r;
				if (n1 <= n2)
					r = (m >> (64 - n1)) + d;
				else if (ISLIN(t1) == ISLIN(t2))
					r = (m >> (64 - n1)) + d;
				else
					r = V[t1].fromx(V[ISLIN(t2) ? L64 : T64].tox(m)) + d;
				if (r == nar(n1) || r == 0 || r > -(nar(n1) + 1) || r < nar(n1))
					continue;
				cs[c++] = r;
				if (c == 13) {
					put(&I_, "%s\n", TY[t1]);
					for (int j = 0; j < 13; j++)
						put(&I_, "%La%s\n", V[t1].tox(cs[j]), sp->a ? " 1 *" : "");
					put(&I_, "%s\n", TY[t2]);
					for (int j = 0; j < 26; j++) /* each is read before the results reach it */
						put(&I_, "%c %s\n", 'a' + (off + j / 2) % 26, j % 2 ? "abs" : "0 -");
					off += 39, c = 0;
				}
			}
		}
		session(w, I_.p, I_.n, (int)sp->c);
	}
}
static const char *const LN[] = { "1 2 +", "", "foo 1", "+", "1 2", "takum_linear16", "?", "a b *", "b 0.1 -", "2 0.5 root", "takum8 1", "c sqrt", "3 takum64 1 +", "   7  " };
#define NLN ((int)(sizeof LN / sizeof *LN))
static void s_lines(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	EACH(w, i, lo, hi)
	{
		uint64_t k = i;
		I_.n = 0;
		if (sp->b == 0) { /* a fresh program for each sequence */
			for (int j = 0; j < (int)sp->a; j++)
				put(&I_, "%s\n", LN[k % NLN]), k /= NLN;
			put(&I_, "a b + c +\n");
		} else { /* one program through all sequences with this prefix */
			uint64_t rest = 1;
			for (int j = (int)sp->b; j < (int)sp->a; j++)
				rest *= NLN;
			for (uint64_t r = 0; r < rest; r++) {
				uint64_t q = r;
				k = i;
				for (int j = 0; j < (int)sp->b; j++)
					put(&I_, "%s\n", LN[k % NLN]), k /= NLN;
				for (int j = (int)sp->b; j < (int)sp->a; j++)
					put(&I_, "%s\n", LN[q % NLN]), q /= NLN;
			}
		}
		session(w, I_.p, I_.n, (int)sp->c);
	}
}
/* fill registers, then read each of them; wraps after z */
static void s_wrap(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	EACH(w, i, lo, hi)
	{
		I_.n = 0;
		for (uint64_t k = 0; k < i; k++) {
			put(&I_, "%d.5\n", (int)k);
			if (k % 5 == 3)
				put(&I_, "1 +\nx y\n\nnope\n");
		}
		for (int k = 0; k < 26; k++)
			put(&I_, "%c 0.25 +\n%c %c -\n", 'a' + k, 'a' + (k * 7 + 3) % 26, 'z' - k);
		session(w, I_.p, I_.n, (int)sp->c);
	}
}
/* every token of up to four characters from the alphabet of numbers */
static void s_lit(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	static const char A[] = "0179xX.e+-apnfi";
	const uint64_t na = sizeof A - 1;
	EACH(w, i, lo, hi)
	{
		I_.n = 0;
		put(&I_, "%s\n", TY[i % 8]);
		uint64_t k = i / 8, n = 1;
		int d = (int)sp->a;
		for (int j = 1; j < d; j++)
			n *= na;
		for (uint64_t r = 0; r < n; r++) {
			char t[8];
			uint64_t q = r;
			t[0] = A[k];
			for (int j = 1; j < d; j++)
				t[j] = A[q % na], q /= na;
			t[d] = 0;
			put(&I_, "%s\n", t);
		}
		session(w, I_.p, I_.n, (int)sp->c);
	}
}
/* shapes of a line: spaces, length, depth, missing newline */
static void s_shape(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	EACH(w, i, lo, hi)
	{
		int k = (int)(i / 16), v = (int)(i % 16);
		I_.n = 0;
		switch (v) {
		case 0: /* k operands, k - 1 sums */
		case 1:
			for (int j = 0; j <= k; j++)
				put(&I_, "%d%s", v ? j : 1, j < k ? " " : "");
			for (int j = 0; j < k; j++)
				put(&I_, " %s", v && j % 2 ? "-" : "+");
			put(&I_, "\na\n");
			break;
		case 2: /* k operands left on the stack */
			for (int j = 0; j < k; j++)
				put(&I_, "%d ", j);
			put(&I_, "\n3\na b *\n");
			break;
		case 3: /* leading, inner and trailing spaces */
			put(&I_, "%*s1%*s2%*s+%*s\na 1 +\n", k, "", k + 1, "", k % 7 + 1, "", k % 3, "");
			break;
		case 4: /* no newline at the end */
			put(&I_, "%d 1 +\n%.*s", k, k, "a 2 * b 3 * + 4 hypotenuse 9 + sqrt 1 2 3 + + - 5 root ? takum8 1 + z a - b + c + d + e 1 2 3 4 5 6");
			break;
		case 5: /* lines around the buffer sizes */
		case 6:
			put(&I_, "1 2 +");
			{
				int len = (v == 5 ? 8192 : 10240) - 20 + (k % 40);
				put(&I_, "%*s", len - 5, "");
			}
			put(&I_, "%s\na 1 +\n", k % 2 ? " 4 *" : "");
			break;
		case 7: /* long tokens */
			put(&I_, "1 0.%0*d +\na\n%0*d\nb\n", k * 13 + 1, 7, k * 5 + 1, 1);
			break;
		case 8: /* long invalid token */
			put(&I_, "1 %0*dq\n5\na\n", k + 1, 3);
			break;
		case 9: put(&I_, "%d\r\n%d\n\t%d\n1\t2 +\na b +\n", k, k, k); break;
		case 10: /* empty lines */
			for (int j = 0; j < k; j++)
				put(&I_, "%*s\n", j % 3, "");
			put(&I_, "%d\na\n", k);
			break;
		case 11: /* deep stack consumed by a mix */
			for (int j = 0; j <= k; j++)
				put(&I_, "%d.5 a ", j);
			for (int j = 0; j <= 2 * k; j++)
				put(&I_, "%s ", j % 3 ? "+" : "hypotenuse");
			put(&I_, "\na a +\n");
			break;
		case 12: /* shallow after deep */
			for (int j = 0; j < k; j++)
				put(&I_, "%d ", j);
			put(&I_, "\n+\n1 +\n1 2 +\nabs\na\n");
			break;
		case 13: /* unary chains */
			put(&I_, "%d.25", k);
			for (int j = 0; j < k; j++)
				put(&I_, " %s", OP[22 + j % (NOP - 22)].id);
			put(&I_, "\na\n");
			break;
		case 14: /* short line after a long one */
			put(&I_, "%*s1 2 3 4 5\n6\na\n", k * 97, "");
			break;
		case 15:
			put(&I_, "%d ?\n1 foo 2\n2 %d\n%d\na\n", k, k, k);
			break;
		}
		session(w, I_.p, I_.n, (int)sp->c);
	}
}
/* sizes and counts named in the program's sources, and powers of two: so many
 * operands, characters, lines */
static int SZ[400], nSZ;
static void sizes(void)
{
	char l[100];
	FILE *f = getenv("MC_LITS") ? fopen(getenv("MC_LITS"), "r") : 0;
	for (int k = 4; k <= 14; k++)
		SZ[nSZ++] = 1 << k;
	while (f && fgets(l, sizeof l, f))
		if (l[0] == 'C' && nSZ < 300) {
			int v = atoi(l + 2), j = 0;
			while (j < nSZ && SZ[j] != v)
				j++;
			if (j == nSZ)
				SZ[nSZ++] = v;
		}
	if (f)
		fclose(f);
}
static void s_size(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	EACH(w, i, lo, hi)
	{
		int v = (int)(i % 6), k = SZ[i / 30] + (int)(i / 6 % 5) - 2;
		I_.n = 0;
		if (v >= 3 && v <= 4 && k > 20000)
			k = 20000 + k % 7;
		switch (v) {
		case 0: /* a token of k characters, valid and invalid */
			put(&I_, "1 0.%0*d +\na\n7 %0*dq\na 1 +\n", k - 2, 7, k - 1, 1);
			break;
		case 1: /* a line of k characters, with and without its newline */
			put(&I_, "2 3%*s\n4 1%*s\na\n1%*s", k - 5 > 1 ? k - 5 : 1, "+", k - 4 > 1 ? k - 4 : 1, "-", k - 1, "");
			break;
		case 2: /* a line whose last token ends at k characters */
			put(&I_, "2%*s\na\n%*s\nb 1 +\n", k - 1, "sqrt", k, "a");
			break;
		case 3: /* k operands, summed */
			for (int j = 0; j < k && j < MAXST - 8; j++)
				put(&I_, "%d ", j % 10);
			for (int j = 1; j < k && j < MAXST - 8; j++)
				put(&I_, "+ ");
			put(&I_, "\na 1 +\n");
			break;
		case 4: /* k lines */
			for (int j = 0; j < k; j++)
				put(&I_, j % 9 == 5 ? "q\n" : j % 7 == 3 ? "\n" : "%d\n", j);
			put(&I_, "a b +\nz\n");
			break;
		case 5: /* k operands left over, then a line of its own */
			for (int j = 0; j < k && j < MAXST - 8; j++)
				put(&I_, "%d ", j % 10);
			put(&I_, "\n2 3 *\n+\na\n");
			break;
		}
		session(w, I_.p, I_.n, (int)sp->c);
	}
}
void c23(void)
{
	sizes();
	for (int as = 0; as < 2; as++) {
		const char *n = as ? "-asan" : "";
		space(8 * 80, s_shape, 0, 0, as, "shapes%s", n);
		space(120, s_wrap, 0, 0, as, "register-wrap%s", n);
		space(8, s_tok, 1, 0, as, "tokens-1%s", n);
		space(8, s_tok, 2, 0, as, "tokens-2%s", n);
		space(8 * NOP, s_ops, 0, 0, as, "operators-x-literals%s", n);
		for (int d = 1; d <= 3; d++)
			space(8 * 15, s_lit, d, 0, as, "number-tokens-%d%s", d, n);
		space(NLN * NLN * NLN, s_lines, 3, 0, as, "lines-3-fresh%s", n);
	}
	space((uint64_t)nSZ * 30, s_size, 0, 0, 0, "sizes");
	space((uint64_t)nSZ * 30, s_size, 0, 0, 1, "sizes-asan");
	space(16 * 500, s_shape, 0, 0, 0, "shapes-500");
	for (int a = 0; a < 2; a++) /* literal and computed registers */
		space(64, s_ties, a, 0, 0, "registers-at-rounding-boundaries-%s", a ? "computed" : "literal");
	space(64 * NOP, s_cross, 0, 0, 0, "registers-across-types");
	space(8 * NTK, s_tok, 3, 1, 0, "tokens-3");
	space(NLN * NLN, s_lines, 5, 2, 0, "lines-5");
	space(8 * 15, s_lit, 4, 0, 0, "number-tokens-4");
	if (thorough) {
		space(8 * NTK * NTK, s_tok, 4, 2, 0, "tokens-4");
		space(64 * NOP, s_cross, 0, 0, 1, "registers-across-types-asan");
		space(8 * NTK, s_tok, 3, 1, 1, "tokens-3-asan");
		space(NLN * NLN * NLN, s_lines, 6, 3, 0, "lines-6");
		space(NLN * NLN * NLN * NLN, s_lines, 4, 0, 0, "lines-4-fresh");
		space(8 * 15, s_lit, 5, 0, 0, "number-tokens-5");
	}
}
