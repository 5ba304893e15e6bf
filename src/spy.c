// Which codec does the work? The codec functions are replaced, at link time,
// by spies (-Wl,--wrap=...), and cpuid and xgetbv by hooks (cc-fakecpu), and
// the library is shown many processors.
#define NO_CRASH_HANDLER
#include "common.h"
#include <sys/wait.h>
#include <sys/ucontext.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>

static u64 seed = 1;

enum { K_NONE, K_PLAIN, K_SSSE3, K_SSE41, K_SSE42, K_AVX, K_AVX2, K_AVX512, K_NEON32, K_NEON64, NK };
static const char *const kname[NK] = { "none", "plain", "SSSE3", "SSE41", "SSE42", "AVX", "AVX2", "AVX512", "NEON32", "NEON64" };
static const char *const kopt[NK] = { "", "PLAIN", "SSSE3", "SSE41", "SSE42", "AVX", "AVX2", "AVX512", "NEON32", "NEON64" };
static const int kflag[NK] = { 0, BASE64_FORCE_PLAIN, BASE64_FORCE_SSSE3, BASE64_FORCE_SSE41, BASE64_FORCE_SSE42, BASE64_FORCE_AVX, BASE64_FORCE_AVX2, BASE64_FORCE_AVX512, BASE64_FORCE_NEON32, BASE64_FORCE_NEON64 };
static bool have[NK];
static __thread int spy_enc, spy_dec, spy_calls;
static bool spy_real;

#define SPY(n, k) \
extern void __real_base64_stream_encode_ ## n (struct base64_state *, const char *, size_t, char *, size_t *) __attribute__((weak)); \
extern int __real_base64_stream_decode_ ## n (struct base64_state *, const char *, size_t, char *, size_t *) __attribute__((weak)); \
void __wrap_base64_stream_encode_ ## n (struct base64_state *s, const char *src, size_t len, char *out, size_t *outlen) \
{ (void) s; (void) src; (void) len; (void) out; spy_enc = k; spy_calls++; if (spy_real) { __real_base64_stream_encode_ ## n(s, src, len, out, outlen); return; } *outlen = 0; } \
int __wrap_base64_stream_decode_ ## n (struct base64_state *s, const char *src, size_t len, char *out, size_t *outlen) \
{ (void) s; (void) src; (void) len; (void) out; spy_dec = k; spy_calls++; if (spy_real) return __real_base64_stream_decode_ ## n(s, src, len, out, outlen); *outlen = 0; return 1; }
SPY(plain, K_PLAIN) SPY(ssse3, K_SSSE3) SPY(sse41, K_SSE41) SPY(sse42, K_SSE42) SPY(avx, K_AVX) SPY(avx2, K_AVX2) SPY(avx512, K_AVX512) SPY(neon32, K_NEON32) SPY(neon64, K_NEON64)

// ------------------------------------------------------------ the processor
#if defined(__x86_64__) || defined(__i386__)
#define X86
typedef struct { u32 max, l1c, l1d, l7b, l7c, junk; u64 xcr0; } Cpu;
static Cpu cpu;
static bool fake;
static u64 *shared;	// [0] cpuid executions, [1] xgetbv executions, [2] xgetbv without OSXSAVE

#define GPR __attribute__((target("general-regs-only"), used, noinline))
GPR void
fake_cpuid_c (u32 *r)	// eax, ebx, ecx, edx
{
	u32 leaf = r[0], sub = r[2];
	if (shared) shared[0]++;
	if (!fake) {
		__asm__ volatile ("cpuid" : "=a"(r[0]), "=b"(r[1]), "=c"(r[2]), "=d"(r[3]) : "a"(leaf), "c"(sub));
		return;
	}
	if (leaf == 0x80000000u) { r[0] = 0x80000008u; r[1] = r[2] = r[3] = 0; return; }
	if (leaf > 0x80000000u) { r[0] = r[1] = r[2] = r[3] = cpu.junk; return; }
	// As Intel does for leaves beyond the last one: data of some other leaf.
	if (leaf > cpu.max) { r[0] = r[1] = r[2] = r[3] = cpu.junk; return; }
	switch (leaf) {
	case 0: r[0] = cpu.max; r[1] = 0x756e6547; r[2] = 0x6c65746e; r[3] = 0x49656e69; return;
	case 1: r[0] = 0x000906ea; r[1] = cpu.junk; r[2] = cpu.l1c; r[3] = cpu.l1d; return;
	case 7:
		if (sub == 0) { r[0] = 2; r[1] = cpu.l7b; r[2] = cpu.l7c; r[3] = cpu.junk; return; }
		r[0] = r[1] = r[2] = r[3] = cpu.junk; return;
	case 0xd: r[0] = (u32) cpu.xcr0; r[1] = 0x340; r[2] = 0x340; r[3] = 0; return;
	default: r[0] = r[1] = r[2] = r[3] = cpu.junk; return;
	}
}
GPR void
fake_xgetbv_c (u32 *r)
{
	if (shared) shared[1]++;
	if (!fake) {
		__asm__ volatile ("xgetbv" : "=a"(r[0]), "=d"(r[3]) : "c"(r[2]));
		return;
	}
	if (!(cpu.l1c & (1u << 27)) && shared) shared[2]++;
	r[0] = r[2] == 0 ? (u32) cpu.xcr0 : cpu.junk;
	r[3] = r[2] == 0 ? (u32) (cpu.xcr0 >> 32) : cpu.junk;
}
#ifdef __x86_64__
#define HOOK(n) __asm__ ( \
	".text\n.globl " #n "\n" #n ":\n pushfq\n push %r8\n push %r9\n push %r10\n push %r11\n push %rsi\n push %rdi\n push %rbp\n" \
	" mov %rsp,%rbp\n sub $64,%rsp\n and $-16,%rsp\n mov %eax,(%rsp)\n mov %ebx,4(%rsp)\n mov %ecx,8(%rsp)\n mov %edx,12(%rsp)\n" \
	" mov %rsp,%rdi\n cld\n call " #n "_c\n mov (%rsp),%eax\n mov 4(%rsp),%ebx\n mov 8(%rsp),%ecx\n mov 12(%rsp),%edx\n" \
	" mov %rbp,%rsp\n pop %rbp\n pop %rdi\n pop %rsi\n pop %r11\n pop %r10\n pop %r9\n pop %r8\n popfq\n ret\n")
#else
#define HOOK(n) __asm__ ( \
	".text\n.globl " #n "\n" #n ":\n pushfl\n push %esi\n push %edi\n push %ebp\n" \
	" mov %esp,%ebp\n sub $64,%esp\n and $-16,%esp\n mov %eax,16(%esp)\n mov %ebx,20(%esp)\n mov %ecx,24(%esp)\n mov %edx,28(%esp)\n" \
	" lea 16(%esp),%eax\n mov %eax,(%esp)\n cld\n call " #n "_c\n mov 16(%esp),%eax\n mov 20(%esp),%ebx\n mov 24(%esp),%ecx\n mov 28(%esp),%edx\n" \
	" mov %ebp,%esp\n pop %ebp\n pop %edi\n pop %esi\n popfl\n ret\n")
#endif
HOOK(fake_cpuid);
HOOK(fake_xgetbv);

static int
best_for (const Cpu *c)
{
	bool os_ymm = (c->l1c >> 27 & 1) && (c->xcr0 & 6) == 6;
	bool os_zmm = os_ymm && (c->xcr0 & 0xE0) == 0xE0;
	bool l7 = c->max >= 7, l1 = c->max >= 1;
	if (have[K_AVX512] && l1 && l7 && os_zmm && (c->l7b >> 31 & 1) && (c->l7c >> 1 & 1)) return K_AVX512;
	if (have[K_AVX2] && l1 && l7 && os_ymm && (c->l7b >> 5 & 1)) return K_AVX2;
	if (have[K_AVX] && l1 && os_ymm && (c->l1c >> 28 & 1)) return K_AVX;
	if (have[K_SSE42] && l1 && (c->l1c >> 20 & 1)) return K_SSE42;
	if (have[K_SSE41] && l1 && (c->l1c >> 19 & 1)) return K_SSE41;
	if (have[K_SSSE3] && l1 && (c->l1c >> 9 & 1)) return K_SSSE3;
	return K_PLAIN;
}

// Feature levels of real processors; each has what the ones before have.
enum { L_NONE, L_SSSE3, L_SSE41, L_SSE42, L_AVX, L_AVX2, L_512F, L_512VL, L_512VBMI_ONLY, L_512, NL };
static const char *const lname[NL] = { "SSE2", "SSSE3", "SSE4.1", "SSE4.2", "AVX", "AVX2", "AVX512F/BW", "AVX512VL", "AVX512VBMI without VL", "AVX512VL+VBMI" };
static void
make_cpu (Cpu *c, int level, bool osxsave, u64 xcr0, u32 max, int noise, Rng *r)
{
	// Every bit that is not about one of the features used is noise.
	u32 k1c = 1u << 9 | 1u << 19 | 1u << 20 | 1u << 27 | 1u << 28, k7b = 1u << 5 | 1u << 16 | 1u << 31, k7c = 1u << 1;
	u32 n1 = noise == 0 ? 0 : noise == 1 ? ~0u : (u32) rnd(r), n2 = noise == 0 ? 0 : noise == 1 ? ~0u : (u32) rnd(r), n3 = noise == 0 ? 0 : noise == 1 ? ~0u : (u32) rnd(r);
	c->max = max;
	c->junk = noise == 0 ? ~0u : noise == 1 ? 0 : (u32) rnd(r);
	c->l1c = n1 & ~k1c; c->l7b = n2 & ~k7b; c->l7c = n3 & ~k7c;
	c->l1d = noise == 0 ? 0x07808111u : ~0u;
	if (level >= L_SSSE3) c->l1c |= 1u << 9;
	if (level >= L_SSE41) c->l1c |= 1u << 19;
	if (level >= L_SSE42) c->l1c |= 1u << 20;
	if (level >= L_AVX) c->l1c |= 1u << 28;
	if (level >= L_AVX2) c->l7b |= 1u << 5;
	if (level >= L_512F) c->l7b |= 1u << 16;
	if (level == L_512VL || level == L_512) c->l7b |= 1u << 31;
	if (level == L_512VBMI_ONLY || level == L_512) c->l7c |= 1u << 1;
	if (osxsave) c->l1c |= 1u << 27;
	c->xcr0 = xcr0 | 1;
	if (noise == 1) c->xcr0 |= 0x60218;	// MPX, PKRU, AMX
	if (noise == 2) c->xcr0 |= rnd(r) & 0x60218;
}
#endif

static u8 text[64];
static char obuf[256];

// One way of using the library; what codec did it run?
static int
probe (int how, int flag, bool *enc)
{
	struct base64_state st;
	size_t n;
	spy_enc = spy_dec = spy_calls = 0;
	*enc = how < 2;
	switch (how) {
	case 0: base64_encode((char *) text, 9, obuf, &n, flag); return spy_enc;
	case 1: base64_stream_encode_init(&st, flag); base64_stream_encode(&st, (char *) text, 9, obuf, &n); return spy_enc;
	case 2: base64_decode("QUJDREVG", 8, obuf, &n, flag); return spy_dec;
	default: base64_stream_decode_init(&st, flag); base64_stream_decode(&st, "QUJDREVG", 8, obuf, &n); return spy_dec;
	}
}

// Functions that no spy sees, since they have other names in this tree: there,
// "none" is the answer to expect, and no more is known.
static bool blind[NK][2];
static void
find_blind (void)
{
	u8 *map = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	int n = 0;
	for (int k = 1; k < NK; k++) for (int e = 0; e < 2; e++) {
		*map = 0;
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) { bool enc; spy_real = false; *map = probe(e ? 0 : 2, kflag[k], &enc) != K_NONE ? 2 : 1; _exit(0); }
		int status;
		waitpid(pid, &status, 0);
		if ((blind[k][e] = *map != 2)) { n++; printf("NOTE\tthe spies do not see the %scoder of codec %s\n", e ? "en" : "de", kname[k]); }
	}
	munmap(map, 4096);
	printf("STAT\tcodec_functions_not_spied_on\t%d\n", n);
}
static bool differs (int got, int want, bool enc) { return got != want && !(got == K_NONE && blind[want][enc]); }
static int spied (Rng *r) { int k; do k = 1 + (int) rndn(r, NK - 1); while (blind[k][0] || blind[k][1]); return k; }

#ifdef __x86_64__
// The first use of the library by two threads: one is stopped at a given
// instruction of its call, while the other makes its own, up to an
// instruction or to the end. Both have to use the codec that one thread alone
// would use, and so have later calls.
typedef struct { volatile long count, stop; void (*at) (void); } Step;
static __thread Step *cur_step;
static struct { volatile int order, done, resume, cut, blocked, codec, how; } B;
#define TF(op, v) __asm__ volatile ("lea -128(%%rsp), %%rsp\n pushfq\n " op " $" v ", (%%rsp)\n popfq\n lea 128(%%rsp), %%rsp\n" ::: "memory", "cc")

static void
on_trap (int sig, siginfo_t *si, void *ucv)
{
	ucontext_t *uc = ucv;
	(void) sig; (void) si;
	if (!cur_step) { uc->uc_mcontext.gregs[REG_EFL] &= ~0x100; return; }
	if (cur_step->count++ == cur_step->stop) {
		cur_step->at();
		uc->uc_mcontext.gregs[REG_EFL] &= ~0x100;
	}
}
static int
stepped (int how, Step *s)
{
	bool enc;
	if (s) { cur_step = s; TF("orq", "0x100"); }
	int got = probe(how, 0, &enc);
	if (s) { TF("andq", "~0x100"); cur_step = NULL; }
	return got;
}
static int wait_b (void) { for (long i = 0; !__atomic_load_n(&B.done, __ATOMIC_SEQ_CST); i++) { if (i > 20000) usleep(100); else sched_yield(); if (i > 20300) { B.blocked = 1; return 0; } } return 1; }
static void b_pause (void) { __atomic_store_n(&B.done, 2, __ATOMIC_SEQ_CST); for (long i = 0; !__atomic_load_n(&B.resume, __ATOMIC_SEQ_CST); i++) { if (i > 20000) usleep(100); else sched_yield(); if (i > 20300) { B.blocked = 1; return; } } }  // the other may wait for a lock that this one has
static void a_pause (void) { __atomic_store_n(&B.order, 1, __ATOMIC_SEQ_CST); wait_b(); }
static void *
b_thread (void *x)
{
	Step s = { 0, *(long *) x, b_pause };
	while (!__atomic_load_n(&B.order, __ATOMIC_SEQ_CST)) sched_yield();
	B.codec = stepped(B.how, s.stop >= 0 ? &s : NULL);
	__atomic_store_n(&B.done, 1, __ATOMIC_SEQ_CST);
	return NULL;
}

static u64 now (void) { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return (u64) ts.tv_sec * 1000000000u + (u64) ts.tv_nsec; }

static void
mode_race (int reps)
{
	Rng r = rng_for(seed, 31, 0);
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_trap;
	sa.sa_flags = SA_SIGINFO | SA_NODEFER;
	sigaction(SIGTRAP, &sa, NULL);
	u64 n = 0, ncut = 0, nblocked = 0, ninst = 0;
	static const int levels[] = { L_SSE42, L_AVX2, L_512, L_SSSE3, L_AVX, L_SSE41, L_NONE };
	u64 t0 = now();
	for (int k = 0; k < 14 * reps; k++) {
		int level = levels[k % 7];
		// Other bits say yes where the ones asked for say no, and the other way round.
		make_cpu(&cpu, level, level >= L_AVX || k & 1, level == L_512 ? 0xE6 : level >= L_AVX ? 6 : k & 1 ? 2 : 0, 7, k < 7 ? 1 : 2, &r);
		int want = best_for(&cpu), ha = (int) rndn(&r, 4), hb = (int) rndn(&r, 4);
		if (blind[want][0] || blind[want][1]) continue;
		for (long at = 0; ; at += 1 + (long) (nblocked / 20) + (reps == 1 ? (long) rndn(&r, 3) : 0)) {
			if (now() - t0 > (reps > 1 ? 300u : 25u) * 1000000000ull) { printf("NOTE\tstopped after %d processors, for time\n", k); goto end; }
			long bat = rndn(&r, 3) ? -1 : (long) rndn(&r, 600);
			CASE("first use by two threads on a processor with %s, leaf1.ecx=%08x leaf7.ebx=%08x leaf7.ecx=%08x: ways %d and %d, the first stopped at instruction %ld, the second at %ld", lname[level], cpu.l1c, cpu.l7b, cpu.l7c, ha, hb, at, bat);
			memset((void *) (shared + 8), 0, 64);
			fflush(stdout);
			pid_t pid = fork();
			if (pid == 0) {
				pthread_t t;
				bool enc;
				spy_real = false;
				fake = true;
				B.how = hb;
				struct itimerval it = { { 10, 0 }, { 10, 0 } };
				setitimer(ITIMER_PROF, &it, NULL);
				pthread_create(&t, NULL, b_thread, &bat);
				Step s = { 0, at, a_pause };
				int a = stepped(ha, &s);
				if (s.count <= at) { shared[8] = 2; _exit(0); }	// was over before
				while (!__atomic_load_n(&B.done, __ATOMIC_SEQ_CST)) sched_yield();
				shared[10] = B.done == 2;
				__atomic_store_n(&B.resume, 1, __ATOMIC_SEQ_CST);
				pthread_join(t, NULL);
				shared[11] = (u64) B.blocked;
				shared[12] = (u64) a;
				shared[13] = (u64) B.codec;
				shared[14] = (u64) want;
				for (int h = 0; h < 4; h++) { int got = probe(h, 0, &enc); if (got != want) shared[14] = (u64) got; }
				shared[8] = 1;
				_exit(0);
			}
			int status;
			waitpid(pid, &status, 0);
			if (!WIFEXITED(status)) { viol("race-crash", "died of signal %d", WTERMSIG(status)); break; }
			if (shared[8] == 0) { n_viol++; finish(1); }	// it was hanging, and has said so
			if (shared[8] != 1) break;
			for (int i = 12; i < 15; i++) if ((int) shared[i] != want) viol("race-choice", "codec %s is used by %s, must be %s", shared[i] < NK ? kname[shared[i]] : "?", i == 12 ? "the first" : i == 13 ? "the second" : "later calls", kname[want]);
			n++; ncut += shared[10] != 0; nblocked += shared[11] != 0; ninst++;
			seen(hash_bytes(&cpu, sizeof cpu, 6) + mix((u64) at * 1000 + (u64) bat));
			if (n_viol > 6) finish(1);
		}
		sample("%s -> %s by both", cur_what, kname[want]);
	}
end:
	printf("STAT\tschedules_of_choices\t%llu\nSTAT\tschedules_of_choices_with_both_cut\t%llu\nSTAT\tschedules_of_choices_blocked\t%llu\n", (unsigned long long) n, (unsigned long long) ncut, (unsigned long long) nblocked);
	finish(n_viol ? 1 : 0);
}
#endif

int
main (int argc, char **argv)
{
	int reps = 1;
	const char *mode = "vectors";
	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], NULL, 0);
		else if (!strcmp(argv[i], "--scale")) reps = atoi(argv[++i]) + 1;
		else if (!strcmp(argv[i], "--codec")) i++;
		else if (!strcmp(argv[i], "--have")) {
			char *l = strdup(argv[++i]);
			for (char *t = strtok(l, ","); t; t = strtok(NULL, ",")) for (int k = 1; k < NK; k++) if (!strcmp(t, kopt[k])) have[k] = true;
		}
		else mode = argv[i];
	}
	common_init();
	ref_init();
	have[K_PLAIN] = true;
	Rng r = rng_for(seed, 30, 0);
	bool enc;

	// Can the spies see anything? If the functions have other names, this
	// way of observing does not work, which is not a violation.
	spy_real = true;
	for (int how = 0; how < 4; how += 2) {
		if (probe(how, BASE64_FORCE_PLAIN, &enc) != K_PLAIN) { printf("NOTE\tthe spies see no calls of the codec functions\nSTAT\tspies_blind\t1\n"); finish(0); }
	}
	printf("STAT\tspies_blind\t0\n");
	find_blind();
	bool can[NK];
	for (int k = 0; k < NK; k++) can[k] = cpu_can(kflag[k]);

	if (!strcmp(mode, "forced")) {
		// Forced codecs, on streams that are interleaved with others.
		static struct { struct base64_state st; int want; bool enc; } s[24];
		u64 n = 0, nreal = 0;
		static const char abc[] = "QUJDREVGR0hJSktMTU5PUFFSU1RVVldYWVphYmNkZWZnaGlqa2xtbm9wcXJzdHV2d3h5ejAxMjM0NTY3ODkrL0FBQUFBQUFBQUFBQUFBQUFBQUFBQUFBQUFBQUFBQUFBQUFBQUFBQUFB";
		memset(s, 0, sizeof s);
		for (int k = 0; k < 40000 * reps; k++) {
			int i = (int) rndn(&r, 24);
			size_t len;
			if (s[i].want == 0 || rndn(&r, 8) == 0) {
				s[i].want = spied(&r);
				s[i].enc = rndn(&r, 2);
				if (s[i].enc) base64_stream_encode_init(&s[i].st, kflag[s[i].want]);
				else base64_stream_decode_init(&s[i].st, kflag[s[i].want]);
			}
			CASE("forced codec=%s stream=%d op=%d", kname[s[i].want], i, k);
			if (rndn(&r, 3) == 0) {		// a one-shot call in between
				int want = spied(&r), how = (int) rndn(&r, 4);
				int got = probe(how, kflag[want], &enc);
				if (got != want) viol("forced-codec", "call with forced codec %s is handled by codec %s", kname[want], kname[got]);
			}
			// The codec itself runs too, where it can, since it has the state in its hands.
			spy_enc = spy_dec = 0;
			spy_real = can[s[i].want] && rndn(&r, 8);
			nreal += spy_real;
			size_t clen = 1 + (size_t) (rndn(&r, 2) ? rndn(&r, 12) : rndn(&r, sizeof abc - 1));
			if (s[i].enc) base64_stream_encode(&s[i].st, abc, clen, obuf, &len);
			else base64_stream_decode(&s[i].st, abc, clen, obuf, &len);
			spy_real = false;
			int got = s[i].enc ? spy_enc : spy_dec;
			if (got != s[i].want) viol("forced-codec", "stream with forced codec %s is handled by codec %s, between other streams", kname[s[i].want], kname[got]);
			seen(mix((u64) k));
			n++;
		}
		printf("STAT\tforced_codecs_run\t%llu\n", (unsigned long long) nreal);
		printf("STAT\tforced_codecs_observed\t%llu\n", (unsigned long long) n);
		sample("forced: %d calls on 24 interleaved streams with all force flags; the codec function entered is observed each time", 40000 * reps);
		finish(0);
	}

	// Default choice. It may be made only once in a process: one child for each.
	int sink[2];
#ifdef X86
	shared = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

	// First, the processor that this runs on.
	memset(&cpu, 0, sizeof cpu);
	{
		u32 a, b, cc, d;
		__asm__ volatile ("cpuid" : "=a"(cpu.max), "=b"(b), "=c"(cc), "=d"(d) : "a"(0), "c"(0));
		__asm__ volatile ("cpuid" : "=a"(a), "=b"(b), "=c"(cpu.l1c), "=d"(d) : "a"(1), "c"(0));
		if (cpu.max >= 7) __asm__ volatile ("cpuid" : "=a"(a), "=b"(cpu.l7b), "=c"(cpu.l7c), "=d"(d) : "a"(7), "c"(0));
		if (cpu.l1c >> 27 & 1) { __asm__ volatile ("xgetbv" : "=a"(a), "=d"(d) : "c"(0)); cpu.xcr0 = (u64) d << 32 | a; }
	}
	int best = best_for(&cpu);
	for (int how = 0; how < 4; how++) for (int f = 0; f < 2; f++) {
		CASE("the real processor, max_leaf=%u leaf1.ecx=%08x leaf7.ebx=%08x leaf7.ecx=%08x xcr0=%llx first_call=%d", cpu.max, cpu.l1c, cpu.l7b, cpu.l7c, (unsigned long long) cpu.xcr0, how);
		shared[4] = 99;
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) {
			// Some calls for real, then only spies.
			if (f) { probe(how, BASE64_FORCE_PLAIN, &enc); probe(how ^ 2, 0, &enc); }
			spy_real = false;
			int got = probe(how, 0, &enc);
			shared[4] = differs(got, best, enc) ? (u64) got : (u64) best;
			_exit(0);
		}
		int status;
		waitpid(pid, &status, 0);
		if (!WIFEXITED(status)) viol("choose-crash", "using the default codec died of signal %d", WTERMSIG(status));
		else if ((int) shared[4] != best) viol("choice", "codec %s is chosen, must be %s", shared[4] < NK ? kname[shared[4]] : "?", kname[best]);
		seen(mix((u64) (how * 2 + f)) + (u64) best);
	}
	sample("%s -> %s", cur_what, kname[best]);
	printf("STAT\treal_processor\t1\n");
	if (!strcmp(mode, "real")) finish(0);
	if (!strcmp(mode, "race") && shared[0]) {
#ifdef __x86_64__
		mode_race(reps);
#endif
		finish(0);
	}
	if (shared[0] == 0) {
		printf("NOTE\tno cpuid instruction of the library is seen; processors cannot be shown to it\nSTAT\thooks_blind\t1\n");
		finish(0);
	}

	u64 nvec = 0, counts[NK] = { 0 };
	static const u32 maxes[] = { 1, 2, 4, 5, 6, 7, 7, 7, 0xd, 0x16, 0x1f };
	for (int rep = 0; rep < reps; rep++)
	for (int level = 0; level < NL; level++) for (int xs = 0; xs < 2; xs++) for (int xx = 0; xx < 52; xx++) for (int noise = 0; noise < 4; noise++) {
		// All subsets, and more of those where all or all but one are set:
		int x = xx < 32 ? xx : xx < 42 ? 31 : 31 ^ 1 << (xx - 42) % 5;
		u64 xcr0 = ((u64) x & 3) << 1 | ((u64) x >> 2) << 5;
		u32 max = noise < 2 && level >= L_AVX2 && (xx & 1) ? 7 : maxes[rndn(&r, sizeof maxes / sizeof *maxes)];
		if (!xs && noise) { if (x % 4) continue; }
		make_cpu(&cpu, level, xs, xcr0, max, noise, &r);
		int how0 = (int) rndn(&r, 4);
		CASE("cpu level=%s max_leaf=%u leaf1.ecx=%08x leaf7.ebx=%08x leaf7.ecx=%08x xcr0=%llx first_call=%d", lname[level], cpu.max, cpu.l1c, cpu.l7b, cpu.l7c, (unsigned long long) cpu.xcr0, how0);
		int want = best_for(&cpu);
		shared[2] = 0;
		shared[4] = shared[5] = 99;
		pid_t pid = fork();
		if (pid == 0) {
			spy_real = false;
			fake = true;
			shared[4] = (u64) want;
			// After another flag or first of all; all four ways of calling:
			if (rndn(&r, 2)) probe((int) rndn(&r, 4), kflag[spied(&r)], &enc);
			for (int h = 0; h < 4; h++) {
				if (blind[want][((how0 + h) & 3) < 2] && !can[want]) continue;
				int got = probe((how0 + h) & 3, 0, &enc);
				if (differs(got, want, enc)) { shared[4] = (u64) got; shared[5] = (u64) h; break; }
			}
			_exit(0);
		}
		int status;
		waitpid(pid, &status, 0);
		if (!WIFEXITED(status)) viol("choose-crash", "choosing a codec died of signal %d", WTERMSIG(status));
		else if ((int) shared[4] != want) viol("choice", "codec %s is chosen, must be %s", shared[4] < NK ? kname[shared[4]] : "?", kname[want]);
		else if (shared[2]) viol("xgetbv", "xgetbv is executed on a processor without OSXSAVE: invalid instruction");
		nvec++;
		counts[want]++;
		if (nvec % 211 == 1) sample("%s -> %s", cur_what, kname[want]);
		seen(hash_bytes(&cpu, sizeof cpu, 5));
	}
	printf("STAT\tprocessors_shown\t%llu\nSTAT\tcpuid_executions\t%llu\nSTAT\txgetbv_executions\t%llu\n", (unsigned long long) nvec, (unsigned long long) shared[0], (unsigned long long) shared[1]);
	for (int k = 1; k < NK; k++) if (counts[k]) printf("STAT\tchoices_of_%s\t%llu\n", kname[k], (unsigned long long) counts[k]);
	(void) sink;
#else
	int want = have[K_NEON64] ? K_NEON64 : have[K_NEON32] ? K_NEON32 : K_PLAIN;
	for (int how0 = 0; how0 < 4; how0++) for (int k = 0; k < NK; k++) {
		fflush(stdout);
		if (pipe(sink)) finish(3);
		pid_t pid = fork();
		if (pid == 0) {
			u8 got;
			spy_real = false;
			if (k && !blind[k][0] && !blind[k][1]) probe((how0 + k) & 3, kflag[k], &enc);
			got = (u8) probe(how0, 0, &enc);
			if (!differs(got, want, enc)) got = (u8) want;
			(void) !write(sink[1], &got, 1);
			_exit(0);
		}
		u8 got = 99;
		close(sink[1]);
		(void) !read(sink[0], &got, 1);
		close(sink[0]);
		int status;
		waitpid(pid, &status, 0);
		CASE("default codec, first call=%d, after a call with %s", how0, kname[k]);
		if (got != want) viol("choice", "codec %s is used by default, must be %s", got < NK ? kname[got] : "?", kname[want]);
		seen((u64) (how0 * 16 + k) * 31);
	}
	sample("this build uses %s by default", kname[want]);
	printf("STAT\tdefault_choices\t%d\n", 4 * NK);
#endif
	finish(0);
}
