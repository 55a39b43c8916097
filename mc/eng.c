#include "eng.h"
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXSP 4096
#define MAXF 64
#define NWMAX 64
#define BMSZ (1 << 20)

static struct space *S;
static int nS;
int thorough;
volatile uint8_t *sp_stop;
struct rec { int sp; uint64_t i; int kind; char msg[1200]; };
struct shm {
	volatile uint64_t next[MAXSP], done[MAXSP];
	volatile uint64_t hb[NWMAX];
	volatile int hbsp[NWMAX];
	uint64_t states, trans, cmp;
	int nrec;
	struct rec rec[MAXF];
	uint64_t knownn[64];
	char knownmsg[64][400];
	volatile int stopall;
	uint8_t stop[MAXSP];
};
static struct shm *sh;
static uint8_t *bms;
static const char *prop;
static int nknown;
static char knownid[64][64], knowndesc[64][600];

void space(uint64_t n, spfn fn, long a, long b, long c, const char *fmt, ...)
{
	va_list ap;
	if (!S)
		S = calloc(MAXSP, sizeof *S);
	if (nS == MAXSP)
		abort();
	struct space *s = &S[nS++];
	va_start(ap, fmt);
	vsnprintf(s->name, sizeof s->name, fmt, ap);
	va_end(ap);
	s->n = n, s->fn = fn, s->a = a, s->b = b, s->c = c;
	s->chunk = n / 512 + 1;
	if (s->chunk > 1 << 16)
		s->chunk = 1 << 16;
}
static double now(void)
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}
static int maxrec = 24;
static void record(int sp, uint64_t i, int kind, const char *msg)
{
	int k = __atomic_fetch_add(&sh->nrec, 1, __ATOMIC_SEQ_CST);
	if (k < MAXF) {
		struct rec *r = &sh->rec[k];
		r->sp = sp, r->i = i;
		snprintf(r->msg, sizeof r->msg, "%s", msg);
		r->kind = kind;
	}
	if (k >= maxrec)
		sh->stopall = 1;
	sh->stop[sp] = 1;
}
void fail(W *w, const char *fmt, ...)
{
	char b[1100];
	va_list ap;
	if (w->failed)
		return;
	w->failed = 1;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	record(w->sp, w->i, 1, b);
}
void known(W *w, const char *id, const char *fmt, ...)
{
	char b[1100];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	for (int k = 0; k < nknown; k++)
		if (!strcmp(knownid[k], id)) {
			if (!__atomic_fetch_add(&sh->knownn[k], 1, __ATOMIC_SEQ_CST))
				snprintf(sh->knownmsg[k], sizeof sh->knownmsg[k], "%.390s", b);
			return;
		}
	fail(w, "%s (finding %s is not listed)", b, id);
}
void (note)(W *w, const char *fmt, ...)
{
	va_list ap;
	if (!w->note || w->note[0])
		return;
	va_start(ap, fmt);
	vsnprintf(w->note, 400, fmt, ap);
	va_end(ap);
}
const char *hx(int ty, int64_t t)
{
	static char b[8][32];
	static int k;
	k = (k + 1) & 7;
	int N = tN[ty];
	snprintf(b[k], 32, "0x%0*llx", N / 4, (unsigned long long)t & (~0ULL >> (64 - N)));
	return b[k];
}
const char *qs(Q v)
{
	static char b[8][64];
	static int k;
	k = (k + 1) & 7;
	strfromf128(b[k], 64, "%.24g", v);
	return b[k];
}
static void visit(W *w, int sp, uint64_t lo, uint64_t hi)
{
	w->sp = sp;
	w->failed = 0;
	sh->hbsp[w->id] = sp;
	S[sp].fn(w, &S[sp], lo, hi);
}
static void flush(W *w)
{
	__atomic_fetch_add(&sh->states, w->states, __ATOMIC_SEQ_CST);
	__atomic_fetch_add(&sh->trans, w->trans, __ATOMIC_SEQ_CST);
	__atomic_fetch_add(&sh->cmp, w->cmp, __ATOMIC_SEQ_CST);
	w->states = w->trans = w->cmp = 0;
}
static int order[MAXSP]; /* small spaces first: the time cap cuts the largest */
static void sort(void)
{
	for (int k = 0; k < nS; k++) {
		int j = k;
		for (; j > 0 && S[order[j - 1]].n > S[k].n; j--)
			order[j] = order[j - 1];
		order[j] = k;
	}
}
static void work(int id)
{
	W w = { .id = id, .hb = &sh->hb[id], .bm = bms + (size_t)id * BMSZ };
	for (int k = 0; k < nS; k++) {
		int s = order[k];
		while (!sh->stop[s] && !sh->stopall) {
			uint64_t lo = __atomic_fetch_add(&sh->next[s], S[s].chunk, __ATOMIC_SEQ_CST);
			if (lo >= S[s].n)
				break;
			uint64_t hi = lo + S[s].chunk;
			if (hi > S[s].n)
				hi = S[s].n;
			visit(&w, s, lo, hi);
			if (!sh->stop[s])
				__atomic_fetch_add(&sh->done[s], hi - lo, __ATOMIC_SEQ_CST);
			flush(&w);
		}
	}
	sh->hbsp[id] = -1;
}
/* one visit in a fresh process; 0 ok, 1 mismatch, 2 crash, 3 hang */
static int alone(int sp, uint64_t i, char *msg, char *nt, int limit)
{
	char *buf = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	int before = sh->nrec, st, res;
	sh->nrec = 0;
	uint8_t keep = sh->stop[sp];
	struct rec r0 = sh->rec[0];
	sh->stop[sp] = 0;
	pid_t p = fork();
	if (!p) {
		alarm((unsigned)limit);
		signal(SIGALRM, SIG_DFL);
		W w = { .id = 0, .hb = &sh->hb[0], .bm = bms, .replay = 1, .note = buf };
		visit(&w, sp, i, i + 1);
		_exit(0);
	}
	waitpid(p, &st, 0);
	res = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? 3 : 2) : sh->nrec ? 1 : WEXITSTATUS(st) ? 2 : 0;
	if (msg) {
		if (res == 1)
			snprintf(msg, 1200, "%s", sh->rec[0].msg);
		else if (res == 2)
			snprintf(msg, 1200, "crash (signal %d) while visiting: %s",
			         WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st), buf);
		else if (res == 3)
			snprintf(msg, 1200, "does not return within %d s: %s", limit, buf);
	}
	if (nt)
		snprintf(nt, 400, "%s", buf);
	sh->nrec = before;
	sh->rec[0] = r0;
	sh->stop[sp] = keep;
	munmap(buf, 4096);
	return res;
}
static void jstr(FILE *f, const char *s)
{
	fputc('"', f);
	for (; *s; s++) {
		if (*s == '"' || *s == '\\')
			fprintf(f, "\\%c", *s);
		else if ((unsigned char)*s < 32)
			fprintf(f, "\\u%04x", *s);
		else
			fputc(*s, f);
	}
	fputc('"', f);
}
static void load_known(const char *path)
{
	FILE *f = fopen(path, "r");
	char l[900], pr[64], id[64];
	int off;
	if (!f)
		return;
	while (fgets(l, sizeof l, f))
		if (sscanf(l, "finding: property=%63s id=%63s %n", pr, id, &off) == 2 && !strcmp(pr, prop) &&
		    nknown < 64) {
			l[strcspn(l, "\n")] = 0;
			strcpy(knownid[nknown], id);
			snprintf(knowndesc[nknown++], 600, "%s", l + off);
		}
	fclose(f);
}

static double cpu(pid_t p) /* seconds of processor time used */
{
	clockid_t c;
	struct timespec t;
	if (!p || clock_getcpuclockid(p, &c) || clock_gettime(c, &t))
		return 0;
	return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}
struct pdef { const char *id; void (*init)(void); const char *rule; const char *assume; };
extern const struct pdef P[];
extern const int NP;

/* usage: mc ID tier nworkers known-file evidence-file replay-dir | mc ID tier --replay space index */
int main(int c, char **v)
{
	double t0 = now();
	const struct pdef *pd = 0;
	if (c < 5)
		return 2;
	prop = v[1];
	thorough = !strcmp(v[2], "thorough");
	for (int i = 0; i < NP; i++)
		if (!strcmp(P[i].id, prop))
			pd = &P[i];
	if (!pd)
		return 2;
	sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	sp_stop = sh->stop;
	if (!strcmp(v[3], "--replay")) {
		load_known(v[6]);
		bms = calloc(1, BMSZ);
		pd->init();
		for (int s = 0; s < nS; s++)
			if (!strcmp(S[s].name, v[4])) {
				char m[1200] = "", n[400] = "";
				int r = alone(s, strtoull(v[5], 0, 0), m, n, 120);
				printf("space %s index %s: %s\n%s\n", v[4], v[5], r ? "VIOLATED" : "held", r ? m : n);
				return r != 0;
			}
		printf("no such space in this tier\n");
		return 2;
	}
	int nw = atoi(v[3]), cap = thorough ? 800 : 600;
	if (getenv("MC_STOP")) /* one violation will do */
		maxrec = 0;
	if (getenv("MC_CAP"))
		cap = atoi(getenv("MC_CAP"));
	if (nw < 1)
		nw = 1;
	if (nw > NWMAX)
		nw = NWMAX;
	load_known(v[4]);
	bms = mmap(0, (size_t)nw * BMSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	pd->init();
	sort();
	fflush(stdout);
	pid_t pid[NWMAX];
	uint64_t last[NWMAX];
	double lastt[NWMAX], lastc[NWMAX];
	int live = 0, capped = 0;
	for (int k = 0; k < nw; k++) {
		if (!(pid[k] = fork())) {
			work(k);
			_exit(0);
		}
		live++;
		last[k] = ~0ULL;
		lastt[k] = now();
		lastc[k] = 0;
	}
	while (live) {
		int st;
		pid_t p = waitpid(-1, &st, WNOHANG);
		if (p > 0) {
			for (int k = 0; k < nw; k++)
				if (pid[k] == p) {
					pid[k] = 0;
					live--;
					if ((WIFSIGNALED(st) || WEXITSTATUS(st)) && sh->hbsp[k] >= 0)
						record(sh->hbsp[k], sh->hb[k], WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL ? 3 : 2, "crash or hang");
					/* a crashed worker is replaced */
					if ((WIFSIGNALED(st) || WEXITSTATUS(st)) && !sh->stopall) {
						sh->hb[k] = 0;
						if (!(pid[k] = fork())) {
							work(k);
							_exit(0);
						}
						live++;
						lastt[k] = now();
						lastc[k] = 0;
					}
				}
			continue;
		}
		struct timespec ts = { 0, 5000000 };
		nanosleep(&ts, 0);
		double t = now();
		for (int k = 0; k < nw; k++) {
			uint64_t key = sh->hb[k] * 4096 + (uint64_t)sh->hbsp[k];
			if (key != last[k])
				last[k] = key, lastt[k] = t, lastc[k] = cpu(pid[k]);
			else if (pid[k] && t - lastt[k] > 30 && (cpu(pid[k]) - lastc[k] > 15 || t - lastt[k] > 150)) /* not merely starved */
				kill(pid[k], SIGKILL), lastt[k] = t;
		}
		if (t - t0 > cap && !capped) {
			capped = 1;
			sh->stopall = 1;
			for (int s = 0; s < nS; s++)
				sh->stop[s] = 1;
		}
	}
	/* replay every recorded failure alone before it is reported */
	int nrec = sh->nrec > MAXF ? MAXF : sh->nrec, viol = 0, seensp[MAXSP] = { 0 };
	struct rec *rr = malloc(sizeof sh->rec);
	memcpy(rr, sh->rec, sizeof sh->rec);
	int unrep = 0;
	/* lowest index first per space */
	for (int a = 0; a < nrec; a++)
		for (int b = a + 1; b < nrec; b++)
			if (rr[b].sp < rr[a].sp || (rr[b].sp == rr[a].sp && rr[b].i < rr[a].i)) {
				struct rec t = rr[a];
				rr[a] = rr[b], rr[b] = t;
			}
	for (int k = 0; k < nrec; k++) {
		char m[1200] = "";
		if (seensp[rr[k].sp])
			continue;
		if (viol && now() - t0 > 650) /* one is enough */
			break;
		int r = alone(rr[k].sp, rr[k].i, m, 0, 60);
		if (!r) {
			unrep += rr[k].kind != 3;
			fprintf(stderr, "not reproduced alone (kind %d): space %s index %llu: %s\n", rr[k].kind, S[rr[k].sp].name,
			        (unsigned long long)rr[k].i, rr[k].msg);
			continue;
		}
		seensp[rr[k].sp] = 1;
		char path[400];
		snprintf(path, sizeof path, "%s/%s-%d.replay", v[6], prop, viol);
		FILE *f = fopen(path, "w");
		if (f) {
			fprintf(f, "property=%s\ntier=%s\nspace=%s\nindex=%llu\nmessage=%s\n", prop, v[2],
			        S[rr[k].sp].name, (unsigned long long)rr[k].i, m);
			fclose(f);
		}
		printf("VIOLATION property=%s replay=%s\n  %s[%llu]: %s\n", prop, path, S[rr[k].sp].name,
		       (unsigned long long)rr[k].i, m);
		fflush(stdout);
		viol++;
	}
	/* a failure seen in a worker but not alone would be nondeterminism of
	 * the code under test: impossible for pure functions, so report it */
	if (!viol && unrep) {
		char path[400];
		snprintf(path, sizeof path, "%s/%s-0.replay", v[6], prop);
		FILE *f = fopen(path, "w");
		if (f) {
			fprintf(f, "property=%s\ntier=%s\nspace=%s\nindex=%llu\nmessage=%s\nnote=only after other calls in the same process\n",
			        prop, v[2], S[rr[0].sp].name, (unsigned long long)rr[0].i, rr[0].msg);
			fclose(f);
		}
		printf("VIOLATION property=%s replay=%s\n  %s[%llu]: %s (only after other calls)\n", prop, path,
		       S[rr[0].sp].name, (unsigned long long)rr[0].i, rr[0].msg);
		viol++;
	}
	for (int k = 0; k < nknown; k++)
		if (sh->knownn[k])
			printf("KNOWN-FINDING: property=%s %s: %s [%llu inputs, e.g. %s]\n", prop, knownid[k], knowndesc[k],
			       (unsigned long long)sh->knownn[k], sh->knownmsg[k]);
	uint64_t tot = 0, done = 0, distinct = 0;
	int incomplete = 0;
	for (int s = 0; s < nS; s++) {
		tot += S[s].n, done += sh->done[s];
		incomplete += sh->done[s] != S[s].n;
	}
	for (size_t b = 0; b < BMSZ; b++) {
		uint8_t x = 0;
		for (int k = 0; k < nw; k++)
			x |= bms[(size_t)k * BMSZ + b];
		distinct += (uint64_t)__builtin_popcount(x);
	}
	FILE *f = fopen(v[5], "w");
	if (!f)
		return 2;
	const char *seed = getenv("VERIF_SEED");
	fprintf(f, "{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%d,\"level\":\"model_checking\",\n\"coverage\":{", prop, v[2],
	        seed ? atoi(seed) : 1);
	fprintf(f, "\"states\":%llu,\"transitions\":%llu,\"traces_validated_against_impl\":%llu,\"distinct_outcomes_at_least\":%llu,\n",
	        (unsigned long long)sh->states, (unsigned long long)sh->trans, (unsigned long long)sh->cmp,
	        (unsigned long long)distinct);
	fprintf(f, "\"state_meaning\":\"operand tuples visited\",\"transition_meaning\":\"calls of the real code\",\"trace_meaning\":\"results compared with the reference model\",\n");
	fprintf(f, "\"exhaustive\":%s,\"spaces_total\":%d,\"spaces_incomplete\":%d,\"points_enumerated\":%llu,\"points_total\":%llu,\"time_cap_hit\":%s,\n\"rule\":",
	        incomplete ? "false" : "true", nS, incomplete, (unsigned long long)done, (unsigned long long)tot,
	        capped ? "true" : "false");
	jstr(f, pd->rule);
	fprintf(f, ",\n\"spaces\":[");
	for (int s = 0; s < nS; s++) {
		fprintf(f, "%s\n", s ? "," : "");
		jstr(f, S[s].name);
	}
	fprintf(f, "],\n\"space_sizes\":[");
	for (int s = 0; s < nS; s++)
		fprintf(f, "%s%llu", s ? "," : "", (unsigned long long)S[s].n);
	fprintf(f, "],\n\"samples\":[");
	int ns = 0, step = nS / 12 + 1;
	for (int s = 0; s < nS && !viol; s += step) {
		char n[400] = "";
		uint64_t i = S[s].n / 3 + (S[s].n > 7 ? 2 : 0);
		alone(s, i, 0, n, 100);
		char b[600];
		snprintf(b, sizeof b, "%s[%llu]: %s", S[s].name, (unsigned long long)i, n);
		fprintf(f, "%s\n", ns++ ? "," : "");
		jstr(f, b);
	}
	fprintf(f, "]},\n\"assumptions\":[");
	jstr(f, pd->assume);
	fprintf(f, "],\n\"known_findings\":[");
	for (int k = 0, first = 1; k < nknown; k++)
		if (sh->knownn[k]) {
			fprintf(f, "%s{\"id\":\"%s\",\"inputs\":%llu}", first ? "" : ",", knownid[k],
			        (unsigned long long)sh->knownn[k]);
			first = 0;
		}
	fprintf(f, "],\n\"wall_s\":%.2f,\"violations\":%d}\n", now() - t0, viol);
	fclose(f);
	printf("%s %s: states=%llu transitions=%llu compared=%llu distinct_outcomes>=%llu spaces=%d incomplete=%d %.1fs violations=%d\n",
	       prop, v[2], (unsigned long long)sh->states, (unsigned long long)sh->trans, (unsigned long long)sh->cmp,
	       (unsigned long long)distinct, nS, incomplete, now() - t0, viol);
	if (capped)
		printf("note: time cap of %d s hit; %llu of %llu points covered\n", cap, (unsigned long long)done,
		       (unsigned long long)tot);
	return viol ? 1 : 0;
}
