// Threads. Modes:
//   stress  threads with their own streams and buffers, and shared input
//   first   the first use of the library in a process, by many threads at once
//   step    one thread is stopped at every single instruction of a call while
//           others make calls (a scheduler with one or two preemptions)
//   nest    the same, with the calls made by a signal handler instead
#ifdef TSAN_BUILD
#define NO_CRASH_HANDLER
#endif
#include "common.h"
#include <pthread.h>
#include <sched.h>
#include <sys/wait.h>
#include <sys/ucontext.h>
#include <linux/futex.h>
#include <sys/syscall.h>

static u64 seed = 1;
static int scale;

// No call of the library is needed to know what is in the build: --have says so.
static void
pick_codecs (const char *have)
{
	codecs[ncodecs++] = all_codecs[0];
	for (int i = 1; i < NCODECS; i++) {
		const char *p = strstr(have, all_codecs[i].name);
		size_t l = strlen(all_codecs[i].name);
		while (p && ((p[l] && p[l] != ',') || (p != have && p[-1] != ','))) p = strstr(p + 1, all_codecs[i].name);
		if (p && cpu_can(all_codecs[i].flag)) codecs[ncodecs++] = all_codecs[i];
	}
}

// ------------------------------------------------------------ shared input
#define NIN 40
static struct { u8 *data, *text, *bad; size_t n, m, badpos; } in[NIN];

static void
make_inputs (size_t top)
{
	Rng r = rng_for(seed, 50, 0);
	for (int i = 0; i < NIN; i++) {
		size_t n = i < 20 ? rndn(&r, 200) : rndn(&r, top);
		in[i].n = n;
		in[i].data = malloc(n + 1);
		in[i].text = malloc(ref_enclen(n) + 4);
		gen(in[i].data, n, (int) rndn(&r, NPATS), &r);
		in[i].m = ref_encode(in[i].data, n, in[i].text);
		in[i].bad = malloc(in[i].m + 4);
		memcpy(in[i].bad, in[i].text, in[i].m);
		if (in[i].m) { in[i].badpos = rndn(&r, in[i].m); in[i].bad[in[i].badpos] = rndn(&r, 2) ? '!' : '='; }
	}
}

static void
tviol (const char *key, const char *fmt, ...)
{
	char b[400], m[300];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(m, sizeof m, fmt, ap);
	va_end(ap);
	snprintf(b, sizeof b, "VIOL\t%s\t%s\n", key, m);
	safe_puts(b);
	__atomic_fetch_add(&n_viol, 1, __ATOMIC_RELAXED);
}

// One random use of the library with own buffers; checks the result. Nothing
// is shared with other threads but the inputs.
typedef struct { u8 *buf, *exp; size_t cap; } Own;

static void
own_init (Own *o, size_t cap)
{
	o->cap = cap;
	o->buf = malloc(cap);
	o->exp = malloc(cap);
}

static int
one_use (Own *o, Rng *r, const char *who)
{
	const Codec *c = &codecs[rndn(r, 3) ? rndn(r, (u64) ncodecs) : 0];
	int i = (int) rndn(r, NIN), what = (int) rndn(r, 6);
	struct base64_state st;
	size_t len = 0, t = 0, pos = 0, el;
	int ret, er;
	RefDec d = { ACTIVE, 0, 0 };

	memset(o->buf, (int) rnd(r), in[i].m + 8 < o->cap ? in[i].m + 8 : o->cap);
	switch (what) {
	case 0:
		base64_encode((char *) in[i].data, in[i].n, (char *) o->buf, &len, c->flag);
		if (len != in[i].m || memcmp(o->buf, in[i].text, len)) { tviol("thread-encode", "%s: base64_encode, codec %s, n=%zu: wrong result, outlen %zu", who, c->name, in[i].n, len); return 1; }
		break;
	case 1:
		ret = base64_decode((char *) in[i].text, in[i].m, (char *) o->buf, &len, c->flag);
		if (ret != 1 || len != in[i].n || memcmp(o->buf, in[i].data, len)) { tviol("thread-decode", "%s: base64_decode, codec %s, n=%zu: wrong result %d, outlen %zu", who, c->name, in[i].n, ret, len); return 1; }
		break;
	case 2:
		if (!in[i].m) break;
		ret = base64_decode((char *) in[i].bad, in[i].m, (char *) o->buf, &len, c->flag);
		er = ref_decode(in[i].bad, in[i].m, o->exp, &el);
		if (ret != er || (ret && (len != el || memcmp(o->buf, o->exp, len)))) { tviol("thread-decode-bad", "%s: base64_decode, codec %s, n=%zu, error at %zu: returns %d", who, c->name, in[i].m, in[i].badpos, ret); return 1; }
		break;
	case 3: case 4:
		base64_stream_encode_init(&st, c->flag);
		while (pos < in[i].n) {
			size_t k = rndn(r, 3) ? 1 + rndn(r, 100) : 1 + rndn(r, in[i].n);
			if (k > in[i].n - pos) k = in[i].n - pos;
			base64_stream_encode(&st, (char *) in[i].data + pos, k, (char *) o->buf + len, &t);
			len += t; pos += k;
			if (len > in[i].m) break;
			if (rndn(r, 8) == 0) sched_yield();
		}
		base64_stream_encode_final(&st, (char *) o->buf + len, &t);
		len += t;
		if (len != in[i].m || memcmp(o->buf, in[i].text, len)) { tviol("thread-stream-encode", "%s: stream encoding, codec %s, n=%zu: wrong result, length %zu", who, c->name, in[i].n, len); return 1; }
		break;
	case 5: {
		const u8 *txt = rndn(r, 2) ? in[i].text : in[i].bad;
		base64_stream_decode_init(&st, c->flag);
		while (pos < in[i].m) {
			size_t k = rndn(r, 3) ? 1 + rndn(r, 100) : 1 + rndn(r, in[i].m);
			if (k > in[i].m - pos) k = in[i].m - pos;
			ret = base64_stream_decode(&st, (char *) txt + pos, k, (char *) o->buf, &t);
			er = ref_dec(&d, txt + pos, k, o->exp, &el);
			if (ret != er || t != el || memcmp(o->buf, o->exp, el)) { tviol("thread-stream-decode", "%s: stream decoding, codec %s, at %zu of %zu: returns %d, outlen %zu; must be %d, %zu", who, c->name, pos, in[i].m, ret, t, er, el); return 1; }
			pos += k;
			if (rndn(r, 8) == 0) sched_yield();
		}
		break;
	} }
	return 0;
}

// ------------------------------------------------------------ stress
#define MAXT 24
static int nthreads;
static u64 uses[MAXT];
static long opsper;
static size_t top;

// Streams that pass from thread to thread, with a mutex for each.
#define NPASS 8
static struct { pthread_mutex_t mu; struct base64_state st; Rng r; int enc, flag; u8 tail[2]; unsigned phase; RefDec d; u64 calls; u32 last; } pass_[NPASS];
static u64 handovers;

static void
pass_use (int p, int me, Own *o)
{
	u8 b[500], e[800];
	pthread_mutex_lock(&pass_[p].mu);
	Rng *r = &pass_[p].r;
	size_t n = rndn(r, 400), len, el;
	if (pass_[p].last != (u32) me) { pass_[p].last = (u32) me; __atomic_fetch_add(&handovers, 1, __ATOMIC_RELAXED); }
	if (pass_[p].enc) {
		memcpy(b, pass_[p].tail, 2);
		gen(b + pass_[p].phase, n, 0, r);
		base64_stream_encode(&pass_[p].st, (char *) b + pass_[p].phase, n, (char *) o->buf, &len);
		size_t m = pass_[p].phase + n;
		ref_encode(b, m, e);
		el = m / 3 * 4 + m % 3 - pass_[p].phase;
		if (len != el || memcmp(o->buf, e + pass_[p].phase, len)) tviol("thread-passed", "a stream handed over between threads encodes wrongly");
		memcpy(pass_[p].tail, b + m / 3 * 3, m % 3);
		pass_[p].phase = (unsigned) (m % 3);
	}
	else {
		n += n == 0;
		gen_text(b, n, r);
		if (pass_[p].calls % 50 == 49) b[rndn(r, n)] = '-';
		int ret = base64_stream_decode(&pass_[p].st, (char *) b, n, (char *) o->buf, &len);
		int er = ref_dec(&pass_[p].d, b, n, o->exp, &el);
		if (ret != er || len != el || memcmp(o->buf, o->exp, el)) tviol("thread-passed", "a stream handed over between threads decodes wrongly");
		if (!er) { base64_stream_decode_init(&pass_[p].st, pass_[p].flag); pass_[p].d = (RefDec) { ACTIVE, 0, 0 }; }
	}
	pass_[p].calls++;
	pthread_mutex_unlock(&pass_[p].mu);
}

static pthread_barrier_t bar;
static void *
stress_thread (void *a)
{
	int me = (int) (intptr_t) a;
	Rng r = rng_for(seed, 51, (u64) me);
	Own o;
	char who[40];
	sprintf(who, "thread %d of %d", me, nthreads);
	own_init(&o, top * 2 + 1000);
	pthread_barrier_wait(&bar);
	for (long k = 0; k < opsper; k++) {
		if (rndn(&r, 4) == 0) pass_use((int) rndn(&r, NPASS), me, &o);
		else if (one_use(&o, &r, who)) break;
		uses[me]++;
		__atomic_fetch_add(&cur_case, 1, __ATOMIC_RELAXED);
	}
	return NULL;
}

static void
mode_stress (void)
{
	pthread_t t[MAXT];
	top = scale == 0 ? 4000 : 20000;
	make_inputs(top);
	Rng r = rng_for(seed, 52, 0);
	for (int p = 0; p < NPASS; p++) {
		pthread_mutex_init(&pass_[p].mu, NULL);
		pass_[p].r = rng_for(seed, 53, (u64) p);
		pass_[p].enc = p & 1;
		pass_[p].flag = codecs[rndn(&r, (u64) ncodecs)].flag;
		if (p & 1) base64_stream_encode_init(&pass_[p].st, pass_[p].flag); else base64_stream_decode_init(&pass_[p].st, pass_[p].flag);
	}
	static const int ts[] = { 8, 24, 3 };
	for (int k = 0; k < 3; k++) {
		nthreads = ts[k];
		opsper = (scale == 0 ? 12000 : scale == 1 ? 60000 : 600000) / nthreads;
		pthread_barrier_init(&bar, NULL, (unsigned) nthreads);
		for (int i = 0; i < nthreads; i++) pthread_create(&t[i], NULL, stress_thread, (void *) (intptr_t) i);
		for (int i = 0; i < nthreads; i++) pthread_join(t[i], NULL);
		sample("stress: %d threads, %ld uses of the library each, codecs default to %s", nthreads, opsper, codecs[ncodecs - 1].name);
	}
	u64 tot = 0;
	for (int i = 0; i < MAXT; i++) tot += uses[i];
	n_evals += tot;
	for (u64 i = 0; i < tot; i++) seen(i * 0x9e3779b97f4a7c15ULL);
	printf("STAT\tstream_handovers\t%llu\nSTAT\tconcurrent_uses\t%llu\n", (unsigned long long) handovers, (unsigned long long) tot);
}

// ------------------------------------------------------------ first use
static volatile int go;
static volatile u32 arrived;
static u32 delay_of[MAXT];
static u64 t_start[MAXT], t_end[MAXT];
static u64 now (void) { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return (u64) ts.tv_sec * 1000000000u + (u64) ts.tv_nsec; }

static void *
first_thread (void *a)
{
	int me = (int) (intptr_t) a;
	Rng r = rng_for(seed, 55, (u64) me * 1000003 + (u64) cur_case);
	Own o;
	char who[40];
	sprintf(who, "first use, thread %d of %d", me, nthreads);
	own_init(&o, 2000);
	u32 dl = delay_of[me];
	__atomic_fetch_add(&arrived, 1, __ATOMIC_ACQ_REL);
	while (!__atomic_load_n(&go, __ATOMIC_ACQUIRE)) ;
	for (volatile u32 i = 0; i < dl; i++) ;
	t_start[me] = now();
	for (int k = 0; k < 6; k++) {
		if (one_use(&o, &r, who)) break;
		if (k == 0) t_end[me] = now();
	}
	return NULL;
}

static void
mode_first (void)
{
	// Inputs are small, so that the first calls overlap with all of the choice.
	top = 100;
	make_inputs(top);
	int reps = scale == 0 ? 30 : scale == 1 ? 400 : 6000;
	u64 overlaps = 0;
	u64 *shared = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for (int k = 0; k < reps; k++) {
		Rng r = rng_for(seed, 54, (u64) k);
		nthreads = 2 + (int) rndn(&r, 7);
		u64 spread = rndn(&r, 3) ? 1 + rndn(&r, 3000) : 1 + rndn(&r, 100000);
		for (int i = 0; i < nthreads; i++) delay_of[i] = (u32) rndn(&r, spread);
		CASE("first use by %d threads, process %d", nthreads, k);
		fflush(stdout);
		shared[0] = shared[1] = 0;
		pid_t pid = fork();
		if (pid == 0) {
			pthread_t t[MAXT];
			for (int i = 0; i < nthreads; i++) pthread_create(&t[i], NULL, first_thread, (void *) (intptr_t) i);
			while (__atomic_load_n(&arrived, __ATOMIC_ACQUIRE) < (u32) nthreads) sched_yield();
			__atomic_store_n(&go, 1, __ATOMIC_RELEASE);
			for (int i = 0; i < nthreads; i++) pthread_join(t[i], NULL);
			for (int i = 0; i < nthreads; i++) for (int j = 0; j < i; j++) if (t_start[i] < t_end[j] && t_start[j] < t_end[i]) shared[0]++;
			shared[1] = n_viol;
			exit(0);	// so that TSan can set the exit code
		}
		int st;
		waitpid(pid, &st, 0);
		if (shared[1]) { n_viol += shared[1]; }
		if (!WIFEXITED(st)) viol("first-crash", "process died of signal %d", WTERMSIG(st));
		else if (WEXITSTATUS(st) == 66) { printf("NOTE\trace reported in process %d\n", k); finish(1); }
		overlaps += shared[0];
		if (shared[0]) seen(mix((u64) k));
		if (n_viol > 6) finish(1);
	}
	sample("first: %d processes in each of which 2 to 8 threads make the first calls at once", reps);
	printf("STAT\tfirst_uses_raced\t%d\nSTAT\toverlapping_first_calls\t%llu\n", reps, (unsigned long long) overlaps);
}

// ------------------------------------------------------------ stepping
#if defined(__x86_64__) && !defined(TSAN_BUILD)
// A few fixed calls, small enough to be stopped at every instruction. What
// runs while stepping is only the library; the checks come afterwards.
typedef struct { int kind; const Codec *c; size_t n, m, bad; } Call;
typedef struct { u8 buf[1000]; size_t len[3]; int ret[2]; } Out;
static u8 sdata[600], stext[900];

static Call
call_make (int kind, const Codec *c, size_t n)
{
	// The texts are those of prefixes of the same data.
	if (kind == 1 || kind == 4) n -= n % 3;
	Call k = { kind, c, n, ref_enclen(n), 0 };
	if (kind == 2 && k.m) { k.m--; }	// too short: invalid
	return k;
}

static void
do_call (const Call *c, Out *o)
{
	struct base64_state st;
	switch (c->kind) {
	case 0:
		base64_encode((char *) sdata, c->n, (char *) o->buf, &o->len[0], c->c->flag);
		return;
	case 1: case 2:
		o->ret[0] = base64_decode((char *) stext, c->m, (char *) o->buf, &o->len[0], c->c->flag);
		return;
	case 3:
		base64_stream_encode_init(&st, c->c->flag);
		base64_stream_encode(&st, (char *) sdata, c->n / 2, (char *) o->buf, &o->len[0]);
		base64_stream_encode(&st, (char *) sdata + c->n / 2, c->n - c->n / 2, (char *) o->buf + o->len[0], &o->len[1]);
		base64_stream_encode_final(&st, (char *) o->buf + o->len[0] + o->len[1], &o->len[2]);
		return;
	default:
		base64_stream_decode_init(&st, c->c->flag);
		o->ret[0] = base64_stream_decode(&st, (char *) stext, c->m / 3, (char *) o->buf, &o->len[0]);
		o->ret[1] = base64_stream_decode(&st, (char *) stext + c->m / 3, c->m - c->m / 3, (char *) o->buf + o->len[0], &o->len[1]);
	}
}

static bool
check_call (const Call *c, const Out *o)
{
	static u8 e[1000];
	switch (c->kind) {
	case 0: ref_encode(sdata, c->n, e); return o->len[0] == c->m && !memcmp(o->buf, e, c->m);
	case 1: return o->ret[0] == 1 && o->len[0] == c->n && !memcmp(o->buf, sdata, c->n);
	case 2: return o->ret[0] == (c->m ? 0 : 1);
	case 3: ref_encode(sdata, c->n, e); return o->len[0] + o->len[1] + o->len[2] == c->m && !memcmp(o->buf, e, c->m);
	default: return o->ret[0] == 1 && o->ret[1] == 1 && o->len[0] + o->len[1] == c->n && !memcmp(o->buf, sdata, c->n);
	}
}
static const char *const kindname[] = { "base64_encode", "base64_decode", "base64_decode of bad text", "stream encoding", "stream decoding" };

// Control: a thread being stepped does something at a given instruction, or
// at each "every"th one.
typedef struct { volatile long count, stop1, every; volatile int resume; void (*at) (void *); void *arg; } Step;
static __thread Step *cur_step;

static void
on_trap (int sig, siginfo_t *si, void *ucv)
{
	Step *s = cur_step;
	ucontext_t *uc = ucv;
	(void) sig; (void) si;
	if (!s) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100; return; }
	long n = s->count++;
	if (s->every) {
		if (n % s->every == s->stop1) s->at(s->arg);
	}
	else if (n == s->stop1) {
		s->at(s->arg);
		uc->uc_mcontext.gregs[REG_EFL] &= ~0x100;	// the rest at full speed
	}
}

static inline void trap_on (void) { __asm__ volatile ("lea -128(%%rsp), %%rsp\n pushfq\n orq $0x100, (%%rsp)\n popfq\n lea 128(%%rsp), %%rsp\n" ::: "memory", "cc"); }
static inline void trap_off (void) { __asm__ volatile ("lea -128(%%rsp), %%rsp\n pushfq\n andq $~0x100, (%%rsp)\n popfq\n lea 128(%%rsp), %%rsp\n" ::: "memory", "cc"); }

static void
trap_init (void)
{
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_trap;
	sa.sa_flags = SA_SIGINFO | SA_NODEFER;
	sigaction(SIGTRAP, &sa, NULL);
}

static u64 n_blocked;
static void
relax (void)
{
	static __thread unsigned n;
	if (++n % 64 == 0) sched_yield();
	else __builtin_ia32_pause();
}
// The other thread waits for orders: start a call; it may be stepped too.
static struct { volatile int order, done, quit; const Call *c; Step step; int stepped, wait; volatile int bad; volatile long runs; Out out; } B;
static void
b_pause (void *arg)
{
	(void) arg;
	__atomic_store_n(&B.done, 2, __ATOMIC_SEQ_CST);	// stopped in the middle
	for (long i = 0; !__atomic_load_n(&B.step.resume, __ATOMIC_SEQ_CST); i++) {
		if (i > 20000) usleep(100);
		else relax();
		// If A has to wait for B, B goes on.
		if (i > 20500) { __atomic_fetch_add(&n_blocked, 1, __ATOMIC_SEQ_CST); return; }
	}
}
static void
b_call (void)
{
	memset(&B.out, 0x5A, sizeof B.out);
	if (B.stepped) { cur_step = &B.step; trap_on(); }
	do_call(B.c, &B.out);
	if (B.stepped) { trap_off(); cur_step = NULL; }
	B.runs++;
	if (!check_call(B.c, &B.out)) B.bad++;
}
static void *
b_thread (void *a)
{
	(void) a;
	for (;;) {
		while (!__atomic_load_n(&B.order, __ATOMIC_SEQ_CST)) relax();
		if (B.quit) return NULL;
		B.order = 0;
		b_call();
		__atomic_store_n(&B.done, 1, __ATOMIC_SEQ_CST);
	}
}
static void
run_b (void *a)
{
	(void) a;
	__atomic_store_n(&B.done, 0, __ATOMIC_SEQ_CST);
	__atomic_store_n(&B.order, 1, __ATOMIC_SEQ_CST);
	// If B has to wait for A (which would be allowed), A goes on.
	for (long i = 0; !__atomic_load_n(&B.done, __ATOMIC_SEQ_CST); i++) {
		if (i > 20000) usleep(100);
		else relax();
		if (i > 20500) { n_blocked++; cur_step->every = 0; cur_step->stop1 = -1; B.wait = 1; return; }
	}
}
static void
run_nested (void *a)
{
	(void) a;
	b_call();
	B.done = 1;
}

static u64 n_pts, n_two;
// With every = 0: A runs up to instruction "at", then B runs (up to its own
// instruction "bat", or completely), then A runs to the end, then the rest of
// B. Otherwise B runs completely at each "every"th instruction of A.
// Returns the number of instructions of A that were stepped through.
static long
schedule (const Call *a, const Call *b, long at, long every, long bat, bool nested, const char *what)
{
	static Out o;
	Step s;
	memset(&s, 0, sizeof s);
	memset(&o, 0xA5, sizeof o);
	s.stop1 = at;
	s.every = every;
	s.at = nested ? run_nested : run_b;
	B.c = b; B.wait = 0; B.bad = 0; B.done = 0; B.order = 0; B.runs = 0;
	memset(&B.step, 0, sizeof B.step);
	B.stepped = bat >= 0 && !nested;
	B.step.stop1 = bat;
	B.step.at = b_pause;
	cur_step = &s;
	trap_on();
	do_call(a, &o);
	trap_off();
	cur_step = NULL;
	long n = s.count;
	if (n <= at) return n;		// was over before
	if (B.wait) while (!__atomic_load_n(&B.done, __ATOMIC_SEQ_CST)) relax();
	if (__atomic_load_n(&B.done, __ATOMIC_SEQ_CST) == 2) {
		n_two++;
		__atomic_store_n(&B.step.resume, 1, __ATOMIC_SEQ_CST);
		while (__atomic_load_n(&B.done, __ATOMIC_SEQ_CST) != 1) relax();
	}
	n_pts += (u64) B.runs;
	bool ok = check_call(a, &o);
	if (!ok || B.bad) {
		viol("schedule", "%s: %s (codec %s, n=%zu) stopped at %s %ld while %s (codec %s, n=%zu) runs%s: the %s gives a wrong result", what, kindname[a->kind], a->c->name, a->n,
			every ? "every instruction from" : "its instruction", at, kindname[b->kind], b->c->name, b->n, bat >= 0 ? " to some point" : "", ok ? "second" : "first");
	}
	seen(mix((u64) at * 4001 + (u64) bat + 1) + (u64) a->kind * 77 + (u64) b->kind * 7777 + (u64) a->c->flag * 99991 + (u64) b->c->flag * 31 + a->n * 15485863 + b->n * 32452843);
	return n;
}

static void
mode_step (bool nested)
{
	pthread_t t;
	Rng r = rng_for(seed, 60, nested);
	gen(sdata, sizeof sdata, 0, &r);
	ref_encode(sdata, sizeof sdata, stext);
	trap_init();

	// First use: a new process for each schedule.
	int *sh = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	int pairs = scale == 2 ? 60 : 7;
	for (int k = 0; k < pairs; k++) {
		const Codec *def = &codecs[0];
		Call a = call_make(k % 5, k % 3 == 2 ? &codecs[rndn(&r, (u64) ncodecs)] : def, 3 + rndn(&r, 4)), b = call_make((int) rndn(&r, 5), k % 4 == 3 ? &codecs[rndn(&r, (u64) ncodecs)] : def, 3 + rndn(&r, 4));
		long at = 0;
		for (;; at++) {
			CASE("first use, schedule");
			fflush(stdout);
			sh[0] = sh[1] = sh[2] = 0;
			long bat = rndn(&r, 2) && !nested ? (long) rndn(&r, 250) : -1;
			pid_t pid = fork();
			if (pid == 0) {
				n_viol = 0; n_two = 0;
				struct itimerval it = { { 10, 0 }, { 10, 0 } };
				setitimer(ITIMER_PROF, &it, NULL);	// fork() does not pass it on
				if (!nested) pthread_create(&t, NULL, b_thread, NULL);
				long n = schedule(&a, &b, at, 0, bat, nested, "first use");
				sh[0] = n <= at ? 2 : 1;
				sh[1] = (int) n_viol; sh[2] = (int) n_two;
				fflush(stdout);
				_exit(0);
			}
			int st;
			waitpid(pid, &st, 0);
			if (!WIFEXITED(st)) { viol("schedule-crash", "%s stopped at instruction %ld: process died of signal %d", kindname[a.kind], at, WTERMSIG(st)); break; }
			if (sh[0] == 0) { n_viol++; finish(1); }	// it was hanging, and has said so
			if (sh[0] != 1) break;
			n_pts++; n_two += (u64) sh[2];
			seen(mix((u64) at * 31 + (u64) k) + 12345);
			n_viol += (u64) sh[1];
			if (n_viol > 6) finish(1);
		}
		sample("first use: %s (%s) stopped at each of its %ld instructions, while %s (%s) runs", kindname[a.kind], a.c->name, at, kindname[b.kind], b.c->name);
	}
	u64 firsts = n_pts, ninst = 0, pairs2 = 0;

	if (!nested) pthread_create(&t, NULL, b_thread, NULL);
	int reps = scale == 2 ? 12000 : 1200;
	u64 t0 = now();
	for (int k = 0; k < reps; k++) {
		if (now() - t0 > (scale == 2 ? 400u : 40u) * 1000000000ull) { printf("NOTE\tstopped after %d of %d pairs of calls, for time\n", k, reps); break; }
		// The same codec in two of three cases, as conflicts are likelier then
		const Codec *ca = &codecs[k % ncodecs], *cb = rndn(&r, 3) ? ca : &codecs[rndn(&r, (u64) ncodecs)];
		int ka = (k / ncodecs) % 5, kb = rndn(&r, 2) ? ka : (int) rndn(&r, 5);
		size_t n = rndn(&r, 3) ? 30 + rndn(&r, 120) : rndn(&r, 260);
		Call a = call_make(ka, ca, n), b = call_make(kb, cb, rndn(&r, 2) ? n + rndn(&r, 9) : rndn(&r, 260));
		CASE("schedules of %s (%s, n=%zu) and %s (%s, n=%zu)", kindname[a.kind], a.c->name, a.n, kindname[b.kind], b.c->name, b.n);
		long every = 1 + (long) rndn(&r, 3);
		long n1 = schedule(&a, &b, (long) rndn(&r, (u64) every), every, -1, nested, "");
		ninst += (u64) n1; pairs2++;
		n_evals += (u64) (n1 / every);
		// Single points, and two calls cut at random points:
		for (int q = 0; q < 4 && n1; q++) {
			n_evals++;
			schedule(&a, &b, (long) rndn(&r, (u64) n1), 0, q & 1 && !nested ? (long) rndn(&r, 300) : -1, nested, "");
		}
		if (k % 101 == 0) sample("%s: the first of %ld instructions, stopped at every %ld.", cur_what, n1, every);
	}
	printf("STAT\tschedules\t%llu\nSTAT\tschedules_of_first_use\t%llu\nSTAT\tschedules_with_both_calls_cut\t%llu\nSTAT\tinstructions_stepped\t%llu\nSTAT\tpairs_of_calls\t%llu\nSTAT\tschedules_blocked\t%llu\n",
		(unsigned long long) n_pts, (unsigned long long) firsts, (unsigned long long) n_two, (unsigned long long) ninst, (unsigned long long) pairs2, (unsigned long long) n_blocked);
	if (!nested) { B.quit = 1; B.order = 1; pthread_join(t, NULL); }
}
#else
static void mode_step (bool nested) { (void) nested; }
#endif

int
main (int argc, char **argv)
{
	const char *mode = "", *have = "PLAIN";
	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], NULL, 0);
		else if (!strcmp(argv[i], "--scale")) scale = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--codec")) i++;
		else if (!strcmp(argv[i], "--have")) have = argv[++i];
		else mode = argv[i];
	}
	common_init();
	ref_init();
	pick_codecs(have);
	for (int i = 0; i < ncodecs; i++) printf("CODEC\t%s\n", codecs[i].name);
	if (!strcmp(mode, "stress")) mode_stress();
	else if (!strcmp(mode, "first")) mode_first();
	else if (!strcmp(mode, "step")) mode_step(false);
	else if (!strcmp(mode, "nest")) mode_step(true);
	else return 3;
	finish(n_viol ? 1 : 0);
}
