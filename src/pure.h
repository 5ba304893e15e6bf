// C14: no system calls, no allocation, little stack, errno untouched.
#include <ucontext.h>
#include <limits.h>
#pragma GCC diagnostic ignored "-Wclobbered"
#if defined(__linux__) && (defined(__x86_64__) || defined(__i386__))
#include <sys/prctl.h>
#include <sys/rseq.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <linux/audit.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#define HAVE_SECCOMP 1
#endif

static volatile int in_call;
static volatile u64 alloc_calls;
#ifdef WRAP_ALLOC
#define W(ret, name, params, args) ret __real_ ## name params; ret __wrap_ ## name params { if (in_call) alloc_calls++; return __real_ ## name args; }
W(void *, malloc, (size_t a), (a))
W(void *, calloc, (size_t a, size_t b), (a, b))
W(void *, realloc, (void *p, size_t a), (p, a))
W(void *, aligned_alloc, (size_t a, size_t b), (a, b))
W(int, posix_memalign, (void **p, size_t a, size_t b), (p, a, b))
W(void, free, (void *p), (p))
#endif

static struct { const Codec *c; size_t n; u64 k; } P;
static volatile int pure_bad;

// The calls themselves; nothing here does anything but call the library.
static void
pure_calls (void)
{
	const char *src = (const char *) SRC.use;
	char *dst = (char *) DST.use;
	size_t len = 0, t = 0, m;
	struct base64_state st;
	const int flag = P.c->flag;

	in_call = 1;
	errno = 4242;
	base64_encode(src, P.n, dst, &len, flag);
	m = len;
	base64_stream_encode_init(&st, flag);
	base64_stream_encode(&st, src, P.n / 3, dst, &len);
	base64_stream_encode(&st, src + P.n / 3, P.n - P.n / 3, dst + len, &t);
	base64_stream_encode_final(&st, dst + len + t, &t);
	if (m >= 4 && P.k % 4 == 3) dst[P.k % m] = '!';
	base64_decode(dst, m, (char *) ref_buf2, &len, flag);
	base64_stream_decode_init(&st, flag);
	base64_stream_decode(&st, dst, m / 2, (char *) ref_buf2, &len);
	base64_stream_decode(&st, dst + m / 2, m - m / 2, (char *) ref_buf2, &len);
	if (errno != 4242) pure_bad = 1;
	in_call = 0;
}

static ucontext_t pure_main, pure_ctx;

#ifdef HAVE_SECCOMP
static volatile int *sys_nr;
static void
on_sys (int sig, siginfo_t *si, void *uc)
{
	(void) sig; (void) uc;
	*sys_nr = si->si_syscall + 1;
	_exit(77);
}
#endif

#ifdef HAVE_SECCOMP
// Everything writable that is the program's or the C library's: its contents
// must not change. The program's own variables share pages with the library's,
// and are left out, as are the stack and the buffers of the calls.
static struct { u8 *a, *copy; size_t n; } snap[64];
static int nsnap;
static volatile u64 *sys_info;		// shared: [0] rounds done, [1] bytes of data watched, [2], [3] where it changed
static void
snap_take (void)
{
	static char exe[PATH_MAX];
	ssize_t el = readlink("/proc/self/exe", exe, sizeof exe - 1);
	FILE *f = fopen("/proc/self/maps", "r");
	static char line[PATH_MAX + 200];
	unsigned long a, b;
	char perm[8];
	const u8 *own[] = { SRC.rw, SRC.use, DST.rw, DST.use, ref_buf2 };
	struct { unsigned long a, b; } m[64];
	int k = 0;
	bool after_exe = false;
	if (!f) return;
	nsnap = 0;
	while (fgets(line, sizeof line, f) && k < 64) {
		if (sscanf(line, "%lx-%lx %7s", &a, &b, perm) != 3) continue;
		bool skip = perm[0] != 'r' || perm[1] != 'w' || strstr(line, "[stack") || strstr(line, "[v") || (perm[3] == 's');
		bool is_exe = el > 0 && strstr(line, exe);
		if (is_exe || (after_exe && !strchr(line, '/') && !strchr(line, '['))) skip = true;	// with its .bss
		after_exe = is_exe || (after_exe && !strchr(line, '/') && !strchr(line, '['));
		for (size_t i = 0; i < sizeof own / sizeof *own; i++) if ((unsigned long) own[i] >= a && (unsigned long) own[i] < b) skip = true;
		if (b - a > (1 << 20)) skip = true;		// the driver's big buffers
		if (!skip) { m[k].a = a; m[k].b = b; k++; }
	}
	fclose(f);
	for (int i = 0; i < k; i++) {
		snap[i].a = (u8 *) m[i].a; snap[i].n = m[i].b - m[i].a;
		snap[i].copy = mmap(NULL, snap[i].n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	}
	errno = 4242;		// as during the calls
	for (nsnap = 0; nsnap < k; nsnap++) memcpy(snap[nsnap].copy, snap[nsnap].a, snap[nsnap].n);
}
static int
snap_differs (void)
{
	for (int i = 0; i < nsnap; i++) for (size_t j = 0; j < snap[i].n; j++) if (snap[i].a[j] != snap[i].copy[j]) {
		// the kernel itself tells where the thread runs in its rseq area
		size_t tp = (size_t) __builtin_thread_pointer(), at = (size_t) (snap[i].a + j);
		if (at >= tp + (size_t) __rseq_offset && at < tp + (size_t) __rseq_offset + 64) continue;
		sys_info[2] = (u64) (uintptr_t) snap[i].a; sys_info[3] = j; return 1;
	}
	return 0;
}

static void
seccomp_child (int rounds, Rng *r)
{
	struct itimerval it;
	memset(&it, 0, sizeof it);
	setitimer(ITIMER_PROF, &it, NULL);
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_sys;
	sa.sa_flags = SA_SIGINFO | SA_NODEFER;
	sigaction(SIGSYS, &sa, NULL);
	struct sock_filter f[] = {
		BPF_STMT(BPF_LD | BPF_W | BPF_ABS, 0),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_exit_group, 1, 0),
		BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP),
		BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
	};
	struct sock_fprog p = { 4, f };
	if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) _exit(55);
	snap_take();
	if (syscall(SYS_prctl, PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) _exit(55);
	for (int i = 0; i < nsnap; i++) sys_info[1] += snap[i].n;
	for (int k = 0; k < rounds; k++) {
		P.k = (u64) k;
		P.n = rounds == 1 ? 777 : k < 300 ? (size_t) k * 2 : rndn(r, k % 100 == 0 ? 4500000 : k % 20 == 0 ? 400000 : 30000);
		gen(SRC.rw, P.n, 0, r);
		pure_calls();
		if (alloc_calls) _exit(78);
		if (pure_bad) _exit(79);
		if ((k < 4 || k % 16 == 0) && snap_differs()) _exit(80);
		sys_info[0]++;
	}
	_exit(0);
}
static void
seccomp_run (int rounds, Rng *r, u64 *sysless)
{
	sys_nr = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	sys_info = (volatile u64 *) (sys_nr + 8);
	fflush(stdout);
	pid_t pid = fork();
	if (pid == 0) seccomp_child(rounds, r);
	int ws = 0;
	while (waitpid(pid, &ws, 0) < 0 && errno == EINTR);
	if (WIFEXITED(ws) && WEXITSTATUS(ws) == 77) viol("syscall", "system call number %d was made by the library", *sys_nr - 1);
	else if (WIFEXITED(ws) && WEXITSTATUS(ws) == 78) viol("alloc", "memory allocation calls were made");
	else if (WIFEXITED(ws) && WEXITSTATUS(ws) == 79) viol("errno", "errno was changed");
	else if (WIFEXITED(ws) && WEXITSTATUS(ws) == 80) viol("data", "data of the C library or on the heap was changed, %zu bytes from the start of the mapping at %zx", (size_t) sys_info[3], (size_t) sys_info[2]);
	else if (WIFSIGNALED(ws)) viol("syscall", "child died of signal %d in round %zu", WTERMSIG(ws), (size_t) sys_info[0]);
	else if (WEXITSTATUS(ws) == 0) { *sysless += sys_info[0] * 7; n_evals += sys_info[0]; printf("MAX\tbytes_of_data_watched\t%llu\n", (unsigned long long) sys_info[1]); }
	else printf("NOTE\tseccomp is not available\n");
	munmap((void *) sys_nr, 4096);
}
#endif

static size_t
stack_use (u8 *stack, size_t stack_size)
{
	memset(stack, 0x6B, stack_size);
	getcontext(&pure_ctx);
	pure_ctx.uc_stack.ss_sp = stack;
	pure_ctx.uc_stack.ss_size = stack_size;
	pure_ctx.uc_link = &pure_main;
	makecontext(&pure_ctx, pure_calls, 0);
	swapcontext(&pure_main, &pure_ctx);
	size_t used = stack_size;
	while (used && stack[stack_size - used] == 0x6B) used--;
#ifndef STACK_LIMIT
#define STACK_LIMIT 16384
#endif
#ifndef NO_STACK_LIMIT
	if (used > STACK_LIMIT) viol("stack", "the calls use %zu bytes of stack", used);
#endif
	return used;
}
static void
pure_first (void)
{
	// The very first use of the library in a process
	static const Codec def = { "default", 0 }, plain = { "PLAIN", BASE64_FORCE_PLAIN };
	const Codec *cs[] = { &def, &plain };
	Rng r = rng_for(seed, 17, 0);
	u64 sysless = 0;
	size_t stack_size = 1 << 18;
	u8 *stack = mmap(NULL, stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	for (int k = 0; k < 2; k++) {
		P.c = cs[k]; P.k = 0; P.n = 777;
		CASE("pure-first codec=%s", P.c->name);
		seen(991 + (u64) k);
#ifdef HAVE_SECCOMP
		seccomp_run(1, &r, &sysless);
#endif
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) {
			gen(SRC.rw, P.n, 0, &r);
			stack_use(stack, stack_size);
			if (alloc_calls) viol("alloc", "%llu memory allocation calls were made", (unsigned long long) alloc_calls);
			if (pure_bad) viol("errno", "errno was changed");
			fflush(stdout);
			_exit(0);
		}
		int ws = 0;
		while (waitpid(pid, &ws, 0) < 0 && errno == EINTR);
		if (WIFSIGNALED(ws)) viol("crash", "the first use dies of signal %d", WTERMSIG(ws));
	}
	munmap(stack, stack_size);
	printf("STAT\tfirst_uses_watched\t4\n");
}

static void
mode_pure (void)
{
	size_t stack_max = 0, stack_size = 1 << 18;
	u64 sysless = 0;
	u8 *stack = mmap(NULL, stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	FOR_CODECS {
		Rng r = rng_for(seed, 16, (u64) c->flag);
		int reps = scale == 0 ? 150 : scale == 1 ? 1500 : 10000;
		for (int k = 0; k < reps; k++) {
			P.c = c; P.k = (u64) k;
			P.n = k < 200 ? (size_t) k * 3 : rndn(&r, k % 200 == 0 ? 4500000 : k % 50 == 0 ? 900000 : 8000);
			gen(SRC.rw, P.n, 0, &r);
			CASE("pure codec=%s n=%zu case=%d", c->name, P.n, k);
			seen(P.n * 32 + (u64) c->flag);
			if (k % 5 == 0) {
				size_t used = stack_use(stack, stack_size);
				if (used > stack_max) stack_max = used;
			}
			else pure_calls();
			if (pure_bad) { pure_bad = 0; viol("errno", "errno was changed"); }
			if (alloc_calls) { viol("alloc", "%llu memory allocation calls were made", (unsigned long long) alloc_calls); alloc_calls = 0; }
		}
#ifdef HAVE_SECCOMP
		// In a child in which any system call is fatal, except exiting:
		CASE("pure-seccomp codec=%s", c->name);
		seccomp_run(400, &r, &sysless);
#endif
		sample("pure codec=%s: %d rounds of 7 calls, stack use at most %zu bytes so far", c->name, reps, stack_max);
	}
	printf("STAT\tcalls_under_seccomp\t%llu\nMAX\tstack_bytes\t%zu\n", (unsigned long long) sysless, stack_max);
}
