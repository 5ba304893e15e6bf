// inject: run a program and change what its system calls do, as an operating
// system may: transfer less than asked, be interrupted, fail. Only the program
// itself is traced (our own child).
//   inject --in PATH --log FILE --plan PLAN -- PROGRAM ARGS...
// PLAN: items separated by commas
//   wK:short:N wK:eintr wK:err:E   the K-th write to standard output, once
//   wK+:...                        this and all later ones
//   wr:SEED                        every write: full, short or interrupted, at random
//   rK..., rr:SEED                 the same for reads from the input (rr: never interrupted)
//   aK+                            the K-th and later large allocations fail
//   c1:err:E                       closing standard output fails
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include <limits.h>
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <sys/user.h>
#include <sys/uio.h>

typedef struct { char k; long n; bool on; int what; long arg; } Item;	// what: 1 short, 2 eintr, 3 err
static Item items[64];
static int nitems;
static uint64_t wr, rr;
static bool wrand, rrand;
static const char *inpath, *logpath;
static long n_w, n_r, n_a, n_short, n_eintr, n_err, n_wbytes, n_rbytes, n_writev;

static uint64_t rnd (uint64_t *s) { uint64_t z = (*s += 0x9E3779B97F4A7C15u); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9u; z = (z ^ (z >> 27)) * 0x94D049BB133111EBu; return z ^ (z >> 31); }

static void
parse (char *p)
{
	for (char *t = strtok(p, ","); t; t = strtok(NULL, ",")) {
		if (!strncmp(t, "wr:", 3)) { wrand = true; wr = strtoull(t + 3, NULL, 0); continue; }
		if (!strncmp(t, "rr:", 3)) { rrand = true; rr = strtoull(t + 3, NULL, 0); continue; }
		Item *i = &items[nitems++];
		i->k = *t++;
		i->n = strtol(t, &t, 10);
		if (*t == '+') { i->on = true; t++; }
		if (!strncmp(t, ":short:", 7)) { i->what = 1; i->arg = atol(t + 7); }
		else if (!strncmp(t, ":eintr", 6)) { i->what = 2; i->arg = EINTR; }
		else if (!strncmp(t, ":err:", 5)) { i->what = 3; i->arg = atol(t + 5); }
	}
}
static Item *
item (char k, long n)
{
	for (int i = 0; i < nitems; i++) if (items[i].k == k && (items[i].on ? n >= items[i].n : n == items[i].n)) return &items[i];
	return NULL;
}

static void
getmem (pid_t p, uint64_t a, void *b, size_t n)
{
	struct iovec l = { b, n }, r = { (void *) a, n };
	if (process_vm_readv(p, &l, 1, &r, 1, 0) != (ssize_t) n) memset(b, 0, n);
}
static void
putmem (pid_t p, uint64_t a, const void *b, size_t n)
{
	struct iovec l = { (void *) b, n }, r = { (void *) a, n };
	if (process_vm_writev(p, &l, 1, &r, 1, 0) != (ssize_t) n) { fprintf(stderr, "inject: cannot write memory\n"); exit(99); }
}

enum { S_NONE, S_READ, S_WRITE, S_WRITEV, S_CLOSE, S_MMAP, S_BRK };

int
main (int argc, char **argv)
{
	int i = 1;
	for (; i < argc && strcmp(argv[i], "--"); i++) {
		if (!strcmp(argv[i], "--in")) inpath = argv[++i];
		else if (!strcmp(argv[i], "--log")) logpath = argv[++i];
		else if (!strcmp(argv[i], "--plan")) parse(strdup(argv[++i]));
	}
	argv += i + 1;
	pid_t p = fork();
	if (p == 0) {
		ptrace(PTRACE_TRACEME, 0, 0, 0);
		raise(SIGSTOP);
		execv(argv[0], argv);
		_exit(98);
	}
	int st;
	if (waitpid(p, &st, 0) != p || !WIFSTOPPED(st)) return 99;
	if (ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL | PTRACE_O_TRACEEXEC)) return 99;
	bool entry = true, started = false, failing = false, closed = false;
	long fail = 0;			// errno to return, at exit
	uint64_t cut_at = 0, cut_old = 0;
	struct user_regs_struct was;		// the argument registers must come back unchanged
	bool restore = false;
	int cut_sz = 0, sc = S_NONE, sig = 0;
	while (1) {
		if (ptrace(PTRACE_SYSCALL, p, 0, sig)) break;
		sig = 0;
		if (waitpid(p, &st, 0) != p) return 99;
		if (WIFEXITED(st) || WIFSIGNALED(st)) break;
		if (st >> 8 == (SIGTRAP | (PTRACE_EVENT_EXEC << 8))) { started = true; continue; }
		if (WSTOPSIG(st) != (SIGTRAP | 0x80)) { sig = WSTOPSIG(st); if (sig == SIGTRAP) sig = 0; continue; }
		if (!started) continue;
		struct user_regs_struct r;
		ptrace(PTRACE_GETREGS, p, 0, &r);
		bool b32 = r.cs == 0x23;
		static bool first = true;
		if (first) { first = false; entry = false; }	// the exit of execve
		if (entry) {
			entry = false;
			uint64_t nr = r.orig_rax, a1 = b32 ? (uint32_t) r.rbx : r.rdi, a2 = b32 ? (uint32_t) r.rcx : r.rsi, a3 = b32 ? (uint32_t) r.rdx : r.rdx, a4 = b32 ? (uint32_t) r.rsi : r.r10;
			static const int n64[] = { -1, 0, 1, 20, 3, 9, 12 }, n32[] = { -1, 3, 4, 146, 6, 192, 45 };
			sc = S_NONE; fail = 0; cut_sz = 0;
			was = r;
			for (int k = 1; k < 7; k++) if ((int) nr == (b32 ? n32 : n64)[k]) sc = k;
			bool is_in = false;
			if (sc == S_READ) {
				is_in = a1 == 0;
				if (!is_in && inpath) {
					char l[64], t[PATH_MAX];
					snprintf(l, sizeof l, "/proc/%d/fd/%d", (int) p, (int) a1);
					ssize_t n = readlink(l, t, sizeof t - 1);
					if (n > 0) { t[n] = 0; is_in = !strcmp(t, inpath); }
				}
			}
			Item *it = NULL;
			Item tmp;
			bool doit = false;
			if (sc == S_READ && is_in) { it = item('r', ++n_r); doit = true;
				if (!it && rrand && a3 > 1 && rnd(&rr) % 3) { tmp = (Item) { .what = 1, .arg = (long) (rnd(&rr) % 2 ? 1 + rnd(&rr) % 9 : 1 + rnd(&rr) % (a3 - 1)) }; it = &tmp; } }
			else if ((sc == S_WRITE || sc == S_WRITEV) && a1 == 1) { it = item('w', ++n_w); doit = true; n_writev += sc == S_WRITEV; }
			else if (sc == S_CLOSE && a1 == 1) { it = item('c', 1); doit = true; closed = true; }
			else if (sc == S_MMAP && (a4 & 0x20) && a2 >= 500000) { n_a++; it = item('a', n_a); if (it) { failing = true; fail = ENOMEM; n_err++; } it = NULL; }
			else if (sc == S_BRK && failing && a1) { if (b32) r.rbx = 0; else r.rdi = 0; restore = true; ptrace(PTRACE_SETREGS, p, 0, &r); }
			if (doit && (sc == S_WRITE || sc == S_WRITEV)) {
				struct { uint64_t b, l; } v[1024];
				uint32_t v32[2048];
				uint64_t total = a3;
				if (sc == S_WRITEV) {
					total = 0;
					if (a3 > 1024) a3 = 1024;
					if (b32) { getmem(p, a2, v32, a3 * 8); for (unsigned k = 0; k < a3; k++) { v[k].b = v32[k * 2]; v[k].l = v32[k * 2 + 1]; } }
					else getmem(p, a2, v, a3 * 16);
					for (unsigned k = 0; k < a3; k++) total += v[k].l;
				}
				if (!it && wrand) {
					uint64_t x = rnd(&wr) % 8;
					if (x < 2) tmp = (Item) { .what = 2, .arg = EINTR };
					else if (x < 7 && total > 1) tmp = (Item) { .what = 1, .arg = (long) (x < 4 ? 1 + rnd(&wr) % 9 : x < 6 ? 1 + rnd(&wr) % 200 : 1 + rnd(&wr) % (total - 1)) };
					else tmp = (Item) { 0 };
					// Do not let a small-step plan run forever
					if (tmp.what == 1 && n_w > 400 && tmp.arg < (long) (total / 3)) tmp.arg = (long) (total / 3);
					if (tmp.what) it = &tmp;
				}
				if (it && it->what == 1 && total > 1) {
					uint64_t n = (uint64_t) it->arg;
					if (it->arg < 0) n = total + (uint64_t) it->arg > total ? total - 1 : total + (uint64_t) it->arg;	// all but so many
					if (n < 1) n = 1;
					if (n < total) {
						n_short++;
						if (sc == S_WRITE) r.rdx = n;
						else {
							unsigned k = 0;
							uint64_t sum = 0;
							while (sum + v[k].l < n) sum += v[k++].l;
							cut_sz = b32 ? 4 : 8;
							cut_at = a2 + k * (b32 ? 8 : 16) + (unsigned) cut_sz;
							cut_old = v[k].l;
							uint64_t nl = n - sum;
							putmem(p, cut_at, &nl, (size_t) cut_sz);
							r.rdx = k + 1;
						}
						restore = true;
						ptrace(PTRACE_SETREGS, p, 0, &r);
					}
				}
			}
			if (doit && sc == S_READ && it && it->what == 1 && (uint64_t) it->arg < a3) { n_short++; r.rdx = (uint64_t) it->arg; restore = true; ptrace(PTRACE_SETREGS, p, 0, &r); }
			if (doit && it && it->what >= 2) { fail = it->arg; if (it->what == 2) n_eintr++; else n_err++; }
			if (fail && sc == S_CLOSE) {}		// is carried out, and reports failure
			else if (fail) { r.orig_rax = (uint64_t) -1; ptrace(PTRACE_SETREGS, p, 0, &r); }
		}
		else {
			entry = true;
			if (restore) { r.rdi = was.rdi; r.rbx = was.rbx; r.rdx = was.rdx; ptrace(PTRACE_SETREGS, p, 0, &r); restore = false; }
			if (cut_sz) { putmem(p, cut_at, &cut_old, (size_t) cut_sz); cut_sz = 0; }
			if (fail) { r.rax = (uint64_t) -fail; if (b32) r.rax = (uint32_t) -fail; ptrace(PTRACE_SETREGS, p, 0, &r); fail = 0; }
			else if (sc == S_WRITE || sc == S_WRITEV) { uint64_t a1 = b32 ? (uint32_t) r.rbx : r.rdi; int64_t x = b32 ? (int32_t) r.rax : (int64_t) r.rax; if (a1 == 1 && x > 0) n_wbytes += x; }
			else if (sc == S_READ) { int64_t x = b32 ? (int32_t) r.rax : (int64_t) r.rax; if (x > 0) n_rbytes += x; }
			sc = S_NONE;
		}
	}
	// Output that is never closed: what close() had to report is not heard
	if (!closed && n_wbytes > 0 && item('c', 1)) n_err++;
	if (logpath) {
		FILE *f = fopen(logpath, "w");
		if (f) {
			fprintf(f, "{\"writes\":%ld,\"writevs\":%ld,\"reads\":%ld,\"large_allocs\":%ld,\"short\":%ld,\"eintr\":%ld,\"errors\":%ld,\"bytes_out\":%ld}\n", n_w, n_writev, n_r, n_a, n_short, n_eintr, n_err, n_wbytes);
			fclose(f);
		}
	}
	if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); kill(getpid(), WTERMSIG(st)); return 99; }
	return WEXITSTATUS(st);
}
