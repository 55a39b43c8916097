/*
 * C22: results depend on arguments alone.
 *  - every call in several environments and over painted stacks, with the
 *    library image's writable memory and the control state compared after it;
 *  - call histories, judged against the same call made first in a fresh process;
 *  - all interleavings of two (three) concurrent calls up to a preemption
 *    bound, at every access to non-stack memory the instrumented library makes.
 */
#define _GNU_SOURCE
#include "call.h"
#include "props.h"
#include <dlfcn.h>
#include <errno.h>
#include <fenv.h>
#include <link.h>
#include <linux/futex.h>
#include <locale.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

static struct tabs tp, tt; /* plain and instrumented copies of the library */

/* ---- writable memory of the plain copy ---- */
struct reg { char *p; size_t n; char *keep; };
static struct reg RG[16];
static int nRG;
static size_t rgbytes;
static void addreg(uintptr_t lo, uintptr_t hi)
{
	if (hi <= lo)
		return;
	struct reg *r = &RG[nRG++];
	r->p = (char *)lo, r->n = hi - lo, r->keep = malloc(r->n);
	memcpy(r->keep, r->p, r->n);
	rgbytes += r->n;
}
static uintptr_t base;
static size_t tls_mod, tls_n;
static char *tls_keep;
extern void *__tls_get_addr(size_t *);
static char *tls(void)
{
	size_t ti[2] = { tls_mod, 0 };
	return tls_n ? __tls_get_addr(ti) : 0;
}
static int phdr(struct dl_phdr_info *i, size_t s, void *u)
{
	uintptr_t rl = 0, rh = 0;
	if (i->dlpi_addr != base)
		return 0;
	for (int k = 0; k < i->dlpi_phnum; k++)
		if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO)
			rl = base + i->dlpi_phdr[k].p_vaddr, rh = rl + i->dlpi_phdr[k].p_memsz;
	for (int k = 0; k < i->dlpi_phnum; k++) {
		const ElfW(Phdr) *p = &i->dlpi_phdr[k];
		if (p->p_type != PT_LOAD || !(p->p_flags & PF_W))
			continue;
		uintptr_t lo = base + p->p_vaddr, hi = lo + p->p_memsz;
		if (rl >= lo && rl < hi)
			addreg(lo, rl), addreg(rh > hi ? hi : rh, hi);
		else
			addreg(lo, hi);
	}
	/* thread-local variables outlive a call too */
	tls_mod = i->dlpi_tls_modid;
	for (int k = 0; k < i->dlpi_phnum; k++)
		if (i->dlpi_phdr[k].p_type == PT_TLS)
			tls_n = i->dlpi_phdr[k].p_memsz;
	return 1;
}
/* while locked, a call that writes to the image faults, even if it would put
 * the old value back before it returns */
static sigjmp_buf jb;
static volatile int locked;
static void onsegv(int sig, siginfo_t *si, void *u)
{
	(void)u;
	for (int k = 0; k < nRG; k++)
		if (locked && (char *)si->si_addr >= RG[k].p && (char *)si->si_addr < RG[k].p + RG[k].n)
			siglongjmp(jb, 1);
	signal(sig, SIG_DFL); /* a crash of its own */
}
static void lock(int on)
{
	for (int k = 0; k < nRG; k++) {
		uintptr_t lo = (uintptr_t)RG[k].p & ~(uintptr_t)4095, hi = ((uintptr_t)RG[k].p + RG[k].n + 4095) & ~(uintptr_t)4095;
		mprotect((void *)lo, hi - lo, on ? PROT_READ : PROT_READ | PROT_WRITE);
	}
	struct sigaction sa = { .sa_sigaction = onsegv, .sa_flags = SA_SIGINFO | SA_NODEFER };
	if (on)
		sigaction(SIGSEGV, &sa, 0);
	else
		signal(SIGSEGV, SIG_DFL);
	locked = on;
}
static const char *dirty(void)
{
	static char b[100];
	char *t = tls();
	if (t && memcmp(t, tls_keep, tls_n)) {
		memcpy(t, tls_keep, tls_n);
		return "a thread-local variable of the library";
	}
	for (int k = 0; k < nRG; k++)
		if (memcmp(RG[k].p, RG[k].keep, RG[k].n)) {
			size_t j = 0;
			while (RG[k].p[j] == RG[k].keep[j])
				j++;
			snprintf(b, sizeof b, "byte 0x%lx of the library image", (unsigned long)((uintptr_t)RG[k].p + j - base));
			memcpy(RG[k].p, RG[k].keep, RG[k].n);
			return b;
		}
	return 0;
}

/* ---- a call made first in a fresh process ---- */
static int eq(struct res x, struct res y) { return x.lo == y.lo && x.hi == y.hi; }
static struct res *slot;
static struct res fresh(const struct tabs *t, int c, uint64_t a, uint64_t b)
{
	if (!slot)
		slot = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	pid_t p = fork();
	int st;
	if (!p) {
		*slot = call(t, c, a, b);
		_exit(0);
	}
	waitpid(p, &st, 0);
	if (st) { /* crashes: show it in this process too */
		call(t, c, a, b);
		_exit(3);
	}
	return *slot;
}
#define NR 24 /* tuples per function used in histories */
static struct { struct res r; volatile int ok; } (*ref)[NR];
static void tup(int c, int k, uint64_t *a, uint64_t *b)
{
	uint64_t n = nargs(c, 0);
	argat(c, 0, n <= NR ? (uint64_t)k % n : (uint64_t)k * n / NR + (uint64_t)(k * 7 % 3) % (n / NR), a, b);
}
static struct res refof(int c, int k)
{
	if (!ref[c][k].ok) {
		uint64_t a, b;
		tup(c, k, &a, &b);
		ref[c][k].r = fresh(&tp, c, a, b);
		__atomic_store_n(&ref[c][k].ok, 1, __ATOMIC_SEQ_CST);
	}
	return ref[c][k].r;
}
#define SH(c, a, b) callname(c), (unsigned long long)(a), (unsigned long long)(b)

/* ---- environments ---- */
static void __attribute__((noinline)) paint(int v)
{
	volatile char b[6000];
	for (size_t k = 0; k < sizeof b; k += 8)
		*(volatile uint64_t *)(b + k) = 0x0101010101010101u * (uint64_t)v;
}
struct ctl { unsigned mx; unsigned short cw; };
static inline struct ctl ctl(void)
{
	struct ctl c;
	__asm__ volatile("stmxcsr %0" : "=m"(c.mx));
	__asm__ volatile("fnstcw %0" : "=m"(c.cw));
	c.mx &= ~0x3fu;
	return c;
}
static void setflags(int all)
{
	unsigned m;
	__asm__ volatile("stmxcsr %0" : "=m"(m));
	m = (m & ~0x3fu) | (all ? 0x3f : 0);
	__asm__ volatile("ldmxcsr %0" : : "m"(m));
	if (all)
		feraiseexcept(FE_DIVBYZERO | FE_INVALID);
	else
		__asm__ volatile("fnclex");
}
static void handlers(struct sigaction *h)
{
	memset(h, 0, 65 * sizeof *h);
	for (int k = 1; k < 65; k++)
		sigaction(k, 0, &h[k]);
}
static void onfpe(int s) { (void)s; }
static void s_env(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int c = (int)sp->a;
	/* in the last one the caller rounds upward: only the control state is compared */
	static const struct { int err, fl, st, up; } E[] = { { 0, 0, 0, 0 }, { ERANGE, 1, 0xff, 0 }, { EDOM, 0, 0x5a, 0 }, { 0, 1, 0x01, 0 }, { 0, 0, 0, 1 } };
	const char *l0 = setlocale(LC_ALL, sp->c ? "C.UTF-8" : "C");
	sigset_t m0, m1;
	memset(&m0, 0, sizeof m0), memset(&m1, 0, sizeof m1);
	sigprocmask(SIG_BLOCK, 0, &m0);
	struct sigaction h0[65], h1[65], fpe = { .sa_handler = onfpe }, fpe0;
	sigaction(SIGFPE, &fpe, &fpe0); /* a handler and a blocked signal of the caller's own */
	sigaddset(&m0, SIGUSR2);
	sigprocmask(SIG_SETMASK, &m0, 0);
	char lname[100];
	snprintf(lname, sizeof lname, "%s", l0 ? l0 : "");
	lock(1);
	handlers(h0);
	EACH(w, i, lo, hi)
	{
		uint64_t a, b;
		struct res r0 = { 0, 0 }, r;
		const char *d;
		argat(c, (int)sp->b, i, &a, &b);
		note(w, "%s(0x%llx, 0x%llx) in 5 environments", SH(c, a, b));
		w->states++;
		if (sigsetjmp(jb, 0)) {
			fesetround(FE_TONEAREST);
			fail(w, "%s(0x%llx, 0x%llx) writes to static data of the library", SH(c, a, b));
			continue;
		}
		for (int e = 0; e < 5; e++) {
			setflags(E[e].fl);
			if (E[e].up)
				fesetround(FE_UPWARD);
			paint(E[e].st);
			errno = E[e].err;
			struct ctl k0 = ctl();
			r = call(&tp, c, a, b);
			struct ctl k1 = ctl();
			w->trans++;
			if (E[e].up)
				fesetround(FE_TONEAREST);
			if (e == 0)
				r0 = r;
			else if (E[e].up)
				;
			else if (w->cmp++, !eq(r, r0))
				fail(w, "%s(0x%llx, 0x%llx) is 0x%llx with errno=%d, exception flags %s, stack filled with %02x, but 0x%llx otherwise",
				     SH(c, a, b), (unsigned long long)r.lo, E[e].err, E[e].fl ? "raised" : "clear", E[e].st, (unsigned long long)r0.lo);
			if (k0.mx != k1.mx || k0.cw != k1.cw)
				fail(w, "%s(0x%llx, 0x%llx) changes the floating-point control words%s", SH(c, a, b), E[e].up ? " of a caller that rounds upward" : "");
			if ((d = dirty()))
				fail(w, "%s(0x%llx, 0x%llx) changes %s", SH(c, a, b), d);
		}
		outcome(w, r0.lo ^ r0.hi << 40 ^ (uint64_t)c << 20);
	}
	handlers(h1);
	lock(0);
	setflags(0);
	sigprocmask(SIG_BLOCK, 0, &m1);
	sigdelset(&m0, SIGUSR2);
	int moved = !sigismember(&m1, SIGUSR2);
	sigdelset(&m1, SIGUSR2);
	sigprocmask(SIG_SETMASK, &m0, 0);
	sigaction(SIGFPE, &fpe0, 0);
	const char *l1 = setlocale(LC_ALL, 0);
	for (int k = 1; k < 65; k++)
		if (h0[k].sa_handler != h1[k].sa_handler || h0[k].sa_flags != h1[k].sa_flags) {
			fail(w, "%s changes the handling of signal %d", callname(c), k);
			break;
		}
	if (moved || memcmp(&m0, &m1, sizeof m0) || !l1 || strcmp(l1, lname))
		fail(w, "%s changes the signal mask or the locale", callname(c));
	setlocale(LC_ALL, "C");
}

/* ---- histories ---- */
static void check(W *w, int c, int k, struct res r, const char *after)
{
	uint64_t a, b;
	struct res f = refof(c, k);
	w->cmp++;
	if (!eq(r, f)) {
		tup(c, k, &a, &b);
		fail(w, "%s(0x%llx, 0x%llx) is 0x%llx after %s, but 0x%llx as the first call of a process", SH(c, a, b), (unsigned long long)r.lo, after,
		     (unsigned long long)f.lo);
	}
}
static struct res rcall(int c, int k)
{
	uint64_t a, b;
	tup(c, k, &a, &b);
	return call(&tp, c, a, b);
}
/* a neighbour that differs in one bit of one argument, then the tuple itself */
static void s_flip(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	(void)sp;
	EACH(w, i, lo, hi)
	{
		int c = (int)(i / NR), k = (int)(i % NR), ty = argtype(c), kd = CID[c].kind;
		uint64_t a, b;
		char t[200];
		refof(c, k);
		tup(c, k, &a, &b);
		w->states++;
		note(w, "%s(0x%llx, 0x%llx) after each one-bit variation", SH(c, a, b));
		int na = ty >= 0 ? tN[ty] : kd == K_F32 ? 32 : 64, nb = kd == K_B ? tN[ty] : kd == K_I ? 64 : kd == K_FX ? 16 : 0;
		for (int j = 0; j < na + nb; j++) {
			uint64_t x = j < na ? a ^ 1ULL << j : a, y = j < na ? b : b ^ 1ULL << (j - na);
			if (ty >= 0)
				x = (uint64_t)sext(x, tN[ty]);
			if (kd == K_B)
				y = (uint64_t)sext(y, tN[ty]);
			call(&tp, c, x, y);
			struct res r = call(&tp, c, a, b);
			w->trans += 2;
			snprintf(t, sizeof t, "%s(0x%llx, 0x%llx)", SH(c, x, y));
			check(w, c, k, r, t);
		}
		dirty();
	}
}
/* all triples of tuples of one function */
static void s_tri(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int m = (int)sp->a;
	EACH(w, i, lo, hi)
	{
		int c = (int)(i / (uint64_t)m), z = (int)(i % (uint64_t)m) * (NR / m);
		w->states++;
		note(w, "%s: last of all triples ending in tuple %d", callname(c), z);
		for (int x = 0; x < NR; x += NR / m)
			for (int y = 0; y < NR; y += NR / m) {
				char t[100];
				rcall(c, x), rcall(c, y);
				struct res r = rcall(c, z);
				w->trans += 3;
				snprintf(t, sizeof t, "two calls of it (tuples %d, %d)", x, y);
				check(w, c, z, r, t);
			}
		dirty();
	}
}
/* every ordered pair of functions */
static void s_cross(W *w, const struct space *sp, uint64_t lo, uint64_t hi)
{
	int m = (int)sp->a;
	EACH(w, i, lo, hi)
	{
		int c = (int)(i / (uint64_t)NCID), d = (int)(i % (uint64_t)NCID);
		w->states++;
		note(w, "%s after %s", callname(c), callname(d));
		for (int x = 0; x < m; x++)
			for (int y = 0; y < m; y++) {
				char t[160];
				int kx = x * 5 + 1, ky = (y * 7 + x + 2) % NR;
				rcall(d, kx);
				struct res r = rcall(c, ky);
				w->trans += 2;
				snprintf(t, sizeof t, "%s (tuple %d)", callname(d), kx);
				check(w, c, ky, r, t);
			}
		dirty();
	}
}

/* ---- interleavings ---- */
#define MT 3
#define MAXP 512
struct thr { pthread_t id; volatile int go; char *slo, *shi; int c; uint64_t a, b; struct res r; volatile int done; };
static struct thr TH[MT];
static __thread int me = -1;
static int nth, threads_up;
static volatile int driver;
static struct pt { unsigned char n, choice, run; unsigned char en[MT]; } PT[MAXP];
static int npt, pre[MAXP], npre, overflow;
static void fwait(volatile int *f)
{
	for (int k = 0; k < 200; k++) {
		if (__atomic_load_n(f, __ATOMIC_ACQUIRE))
			goto out;
		__builtin_ia32_pause();
	}
	while (!__atomic_load_n(f, __ATOMIC_ACQUIRE))
		syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
out:
	__atomic_store_n(f, 0, __ATOMIC_RELEASE);
}
static void fwake(volatile int *f)
{
	__atomic_store_n(f, 1, __ATOMIC_RELEASE);
	syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
/* the running thread decides who continues; enabled threads in canonical order, itself first */
static int decide(int self, int alive)
{
	struct pt p = { .run = (unsigned char)alive };
	if (alive)
		p.en[p.n++] = (unsigned char)self;
	for (int k = 0; k < nth; k++)
		if (k != self && !TH[k].done)
			p.en[p.n++] = (unsigned char)k;
	if (!p.n)
		return -1;
	if (p.n == 1)
		return p.en[0];
	if (npt >= MAXP) {
		overflow = 1;
		return p.en[0];
	}
	int ch = npt < npre ? pre[npt] : 0;
	if (ch >= p.n)
		abort(); /* a replayed prefix diverged */
	p.choice = (unsigned char)ch;
	PT[npt++] = p;
	return p.en[ch];
}
static inline void point(void *addr)
{
	if (me < 0 || ((char *)addr >= TH[me].slo && (char *)addr < TH[me].shi))
		return;
	int n = decide(me, 1);
	if (n != me) {
		fwake(&TH[n].go);
		fwait(&TH[me].go);
	}
}
#define HK(n) void __tsan_##n(void *p) { point(p); }
HK(read1) HK(read2) HK(read4) HK(read8) HK(read16) HK(write1) HK(write2) HK(write4) HK(write8) HK(write16)
HK(unaligned_read2) HK(unaligned_read4) HK(unaligned_read8) HK(unaligned_read16)
HK(unaligned_write2) HK(unaligned_write4) HK(unaligned_write8) HK(unaligned_write16)
HK(volatile_read1) HK(volatile_read2) HK(volatile_read4) HK(volatile_read8) HK(volatile_read16)
HK(volatile_write1) HK(volatile_write2) HK(volatile_write4) HK(volatile_write8) HK(volatile_write16)
HK(vptr_read)
void __tsan_init(void) {}
/* entering and leaving a library function are scheduling points too */
static void fpoint(void)
{
	if (me >= 0) {
		int n = decide(me, 1);
		if (n != me)
			fwake(&TH[n].go), fwait(&TH[me].go);
	}
}
void __tsan_func_entry(void *p) { (void)p; fpoint(); }
void __tsan_func_exit(void) { fpoint(); }
void __tsan_read_range(void *p, unsigned long n) { (void)n; point(p); }
void __tsan_write_range(void *p, unsigned long n) { (void)n; point(p); }
void __tsan_vptr_update(void **p, void *v) { (void)v; point(p); }
#define AT(n, T) \
	T __tsan_atomic##n##_load(const volatile T *p, int o) { (void)o; point((void *)p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##n##_store(volatile T *p, T v, int o) { (void)o; point((void *)p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##n##_exchange(volatile T *p, T v, int o) { (void)o; point((void *)p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int o) { (void)o; point((void *)p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int o) { (void)o; point((void *)p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int o) { (void)o; point((void *)p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int o) { (void)o; point((void *)p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int o) { (void)o; point((void *)p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int q) { (void)o, (void)q; point((void *)p); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int q) { (void)o, (void)q; point((void *)p); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void)o; }
void __tsan_atomic_signal_fence(int o) { (void)o; }

static void *body(void *u)
{
	int k = (int)(intptr_t)u;
	pthread_attr_t at;
	void *s;
	size_t n;
	pthread_getattr_np(pthread_self(), &at);
	pthread_attr_getstack(&at, &s, &n);
	TH[k].slo = s, TH[k].shi = (char *)s + n;
	/* thread-local variables live at the top of the same mapping: they are
	 * private, so not scheduling points */
	fwake(&driver);
	for (;;) {
		fwait(&TH[k].go);
		me = k;
		TH[k].r = call(&tt, TH[k].c, TH[k].a, TH[k].b);
		me = -1;
		TH[k].done = 1;
		int nx = decide(k, 0);
		fwake(nx < 0 ? &driver : &TH[nx].go);
	}
	return 0;
}
static pid_t tpid;
static void up(void)
{
	if (threads_up && tpid == getpid())
		return;
	tpid = getpid();
	threads_up = 1;
	for (int k = 0; k < MT; k++) {
		TH[k].go = 0;
		pthread_create(&TH[k].id, 0, body, (void *)(intptr_t)k);
		fwait(&driver);
	}
}
static void execute(void)
{
	npt = 0;
	for (int k = 0; k < nth; k++)
		TH[k].done = 0;
	/* the first decision: who starts */
	int ch = npre > 0 ? pre[0] : 0;
	PT[npt++] = (struct pt){ .n = (unsigned char)nth, .choice = (unsigned char)ch, .run = 0, .en = { 0, 1, 2 } };
	fwake(&TH[ch].go);
	fwait(&driver);
}
struct xctx { W *w; struct res want[MT]; int bound; uint64_t runs, cap; int bad; };
static void explore(struct xctx *x, int n)
{
	struct pt my[MAXP];
	int cost = 0, m;
	npre = n;
	execute();
	x->runs++, x->w->trans += (uint64_t)npt, x->w->cmp++;
	m = npt;
	uint64_t h = 1469598103934665603u;
	for (int k = 0; k < m; k++)
		h = (h ^ PT[k].choice) * 1099511628211u;
	outcome(x->w, h ^ (uint64_t)TH[0].c << 40 ^ (uint64_t)TH[1].c << 50);
	for (int k = 0; k < nth; k++)
		if (!eq(TH[k].r, x->want[k]) && !x->bad) {
			char s[200];
			int j = 0;
			for (int q = 0; q < m && j < 190; q++)
				s[j++] = (char)('0' + PT[q].en[PT[q].choice]);
			s[j] = 0;
			x->bad = 1;
			fail(x->w, "%s(0x%llx, 0x%llx) returns 0x%llx, alone 0x%llx, when interleaved with %s(0x%llx, 0x%llx) in the order %s of threads at the accesses to non-stack memory",
			     SH(TH[k].c, TH[k].a, TH[k].b), (unsigned long long)TH[k].r.lo, (unsigned long long)x->want[k].lo,
			     SH(TH[(k + 1) % nth].c, TH[(k + 1) % nth].a, TH[(k + 1) % nth].b), s);
		}
	memcpy(my, PT, (size_t)m * sizeof *my);
	for (int i = 0; i < n; i++)
		cost += my[i].run && my[i].choice;
	for (int i = n; i < m && !x->bad; i++) {
		int c = cost + (my[i].run ? 1 : 0);
		/* default choices cost nothing */
		if (c <= x->bound && x->runs < x->cap)
			for (int alt = 1; alt < my[i].n; alt++) {
				for (int q = 0; q < i; q++)
					pre[q] = my[q].choice;
				pre[i] = alt;
				explore(x, i + 1);
			}
	}
}
static uint64_t *capped;
static void sched(W *w, const int *c, const int *k, int n, int bound)
{
	struct xctx x = { .w = w, .bound = bound, .cap = 200000 };
	up();
	nth = n;
	for (int j = 0; j < n; j++) {
		TH[j].c = c[j];
		tup(c[j], k[j], &TH[j].a, &TH[j].b);
		x.want[j] = refof(c[j], k[j]);
	}
	overflow = 0;
	explore(&x, 0);
	w->states++;
	if (overflow || x.runs >= x.cap)
		__atomic_fetch_add(capped, 1, __ATOMIC_SEQ_CST);
	note(w, "%s || %s: %llu schedules with at most %d preemptions", callname(c[0]), callname(c[1]), (unsigned long long)x.runs, bound);
}
static void s_self(W *w, const struct space *sp, uint64_t lo, uint64_t hi) /* f || f */
{
	int m = (int)sp->a;
	EACH(w, i, lo, hi)
	{
		int c = (int)(i / (uint64_t)m), j = (int)(i % (uint64_t)m), cc[] = { c, c, c }, kk[] = { j * 5 % NR, (j * 7 + 3) % NR, (j * 11 + 8) % NR };
		sched(w, cc, kk, (int)sp->b, (int)sp->c);
	}
}
static void s_two(W *w, const struct space *sp, uint64_t lo, uint64_t hi) /* f || g of one type, or a conversion */
{
	int per = NCID / NT;
	EACH(w, i, lo, hi)
	{
		int c = (int)(i / (uint64_t)per), g = (int)(i % (uint64_t)per), d = sp->a ? (int)((uint64_t)(c / per * per) + (uint64_t)g) : (int)((c + 1 + g * 37) % NCID);
		int cc[] = { c, d, c }, kk[] = { (c + g) % NR, (c * 3 + g * 5 + 1) % NR, 0 };
		if (!sp->a && g >= 8)
			continue;
		sched(w, cc, kk, 2, (int)sp->c);
	}
}
void c22(void)
{
	void *h;
	struct link_map *lm;
	tp = tabs_load(getenv("PURE_SO"), &h);
	dlinfo(h, RTLD_DI_LINKMAP, &lm);
	base = lm->l_addr;
	dl_iterate_phdr(phdr, 0);
	if (tls_n)
		tls_keep = malloc(tls_n), memcpy(tls_keep, tls(), tls_n);
	tt = tabs_load(getenv("TSAN_SO"), 0);
	alpha_pb = 12;
	alpha_init(1, 1);
	calls_init();
	ref = mmap(0, sizeof *ref * (size_t)NCID, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	capped = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	space((uint64_t)NCID * NR, s_flip, 0, 0, 0, "histories: one-bit variation then the call");
	space((uint64_t)NCID * 12, s_tri, 12, 0, 0, "histories: triples of one function");
	space((uint64_t)NCID * (uint64_t)NCID, s_cross, thorough ? 4 : 2, 0, 0, "histories: every ordered pair of functions");
	space((uint64_t)NCID * (thorough ? NR : 6), s_self, thorough ? NR : 6, 2, 2, "schedules: two calls of one function, 2 preemptions");
	space((uint64_t)NCID * 2, s_self, 2, 3, thorough ? 2 : 1, "schedules: three calls of one function");
	space((uint64_t)NCID * (uint64_t)(NCID / NT), s_two, 1, 0, thorough ? 2 : 1, "schedules: two functions of one type");
	for (int c = 0; c < NCID; c++)
		for (int l = 0; l < 2; l++)
			space(nargs(c, l ? 0 : thorough ? 2 : 1), s_env, c, l ? 0 : thorough ? 2 : 1, l, "%s/environments%s", callname(c), l ? "-utf8" : "");
}
