// Common parts of the drivers: reference model, PRNG, guarded buffers, reports.
// The reference model is written from RFC 4648 and the library's documented
// interface only; nothing of the code under test is used in it.
#ifndef COMMON_H
#define COMMON_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdbool.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include "libbase64.h"

typedef uint8_t u8;
typedef uint64_t u64;
typedef uint32_t u32;

// ---------------------------------------------------------------- reports
static char cur_what[256];	// the case being run, for the signal handlers
static volatile u64 cur_case;
static u64 n_evals, n_viol;
static u8 *seen_bits;		// 2^24-bit map, for a lower bound on distinct cases
static int viol_limit = 8;
static int n_samples;

static void finish(int) __attribute__((noreturn));

static void
viol (const char *key, const char *fmt, ...)
{
	va_list ap;
	printf("VIOL\t%s\t%s: ", key, cur_what);
	va_start(ap, fmt);
	vprintf(fmt, ap);
	va_end(ap);
	printf("\n");
	fflush(stdout);
	if (++n_viol >= (u64) viol_limit) {
		finish(1);
	}
}

static u64
mix (u64 x)
{
	x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL;
	x ^= x >> 27; x *= 0x94d049bb133111ebULL;
	return x ^ (x >> 31);
}

static void
seen (u64 h)
{
	h = mix(h) & 0xFFFFFF;
	seen_bits[h >> 3] |= 1 << (h & 7);
}

static u64
hash_bytes (const void *p, size_t n, u64 h)
{
	const u8 *b = p;
	h ^= n * 0x9e3779b97f4a7c15ULL;
	for (size_t i = 0; i < n; i++) {
		h = (h ^ b[i]) * 0x100000001b3ULL;
	}
	return mix(h);
}

static void
sample (const char *fmt, ...)
{
	if (n_samples >= 6) return;
	n_samples++;
	va_list ap;
	printf("SAMPLE\t");
	va_start(ap, fmt);
	vprintf(fmt, ap);
	va_end(ap);
	printf("\n");
}

static void
finish (int rc)
{
	u64 d = 0;
	for (size_t i = 0; i < (1 << 21); i++) d += (u64) __builtin_popcount(seen_bits[i]);
	printf("STAT\tevaluations\t%llu\nSTAT\tdistinct\t%llu\nEND\t%d\n", (unsigned long long) n_evals, (unsigned long long) d, n_viol ? 1 : rc);
	fflush(stdout);
	_exit(n_viol ? 1 : rc);
}

static void
safe_puts (const char *s)
{
	ssize_t r = write(1, s, strlen(s)); (void) r;
}

static volatile u64 crash_addr_base[8], crash_addr_size[8];
static const char *crash_addr_name[8];

static void
on_crash (int sig, siginfo_t *si, void *uc)
{
	char buf[700];
	const char *where = "";
	(void) uc;
	u64 a = (u64) (uintptr_t) si->si_addr;
	for (int i = 0; i < 8; i++) {
		if (crash_addr_size[i] && a >= crash_addr_base[i] - 65536 && a < crash_addr_base[i] + crash_addr_size[i] + 65536) {
			where = crash_addr_name[i];
		}
	}
	snprintf(buf, sizeof buf, "\nVIOL\tcrash:%s\t%s: signal %d (%s) at address %p %s\nEND\t1\n",
		sig == SIGSEGV ? "segv" : sig == SIGBUS ? "bus" : sig == SIGILL ? "ill" : sig == SIGFPE ? "fpe" : "abort",
		cur_what, sig, strsignal(sig), si->si_addr, where);
	safe_puts(buf);
	_exit(1);
}

static int hang_ticks = 3;
static void
on_tick (int sig)
{
	static u64 last = (u64) -1;
	static int same;
	(void) sig;
	if (cur_case == last) {
		if (++same >= hang_ticks) {
			char buf[500];
			snprintf(buf, sizeof buf, "\nVIOL\thang\t%s: no progress in %d0 s of CPU time\nEND\t1\n", cur_what, same);
			safe_puts(buf);
			_exit(1);
		}
	}
	else {
		last = cur_case;
		same = 0;
	}
}

#define CASE(...) (cur_case++, n_evals++, snprintf(cur_what, sizeof cur_what, __VA_ARGS__))

static void
common_init (void)
{
	static char obuf[1 << 16];
	setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
	seen_bits = calloc(1, 1 << 21);
	static u8 alt[65536];
	stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt };
	sigaltstack(&ss, NULL);
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
#ifndef NO_CRASH_HANDLER
	sa.sa_sigaction = on_crash;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	sigaction(SIGSEGV, &sa, NULL);
	sigaction(SIGBUS, &sa, NULL);
	sigaction(SIGILL, &sa, NULL);
	sigaction(SIGFPE, &sa, NULL);
	sigaction(SIGABRT, &sa, NULL);
#endif
	sa.sa_flags = SA_RESTART;
	sa.sa_handler = on_tick;
	sigaction(SIGPROF, &sa, NULL);
	struct itimerval it = { { 10, 0 }, { 10, 0 } };
#ifndef TSAN_BUILD
	setitimer(ITIMER_PROF, &it, NULL);
#endif
}

// ---------------------------------------------------------------- PRNG
typedef struct { u64 s; } Rng;
static inline u64 rnd (Rng *r) { r->s += 0x9e3779b97f4a7c15ULL; return mix(r->s); }
static inline u64 rndn (Rng *r, u64 n) { return n ? rnd(r) % n : 0; }
static inline Rng rng_for (u64 seed, u64 a, u64 b) { Rng r = { mix(seed + 0x1234567) ^ mix(a * 77 + 5) ^ mix(b * 131 + 9) * 3 }; return r; }

// ---------------------------------------------------------------- reference
static const char ref_alpha[65] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int8_t ref_inv[256];	// value, -1 invalid, -2 padding

static void
ref_init (void)
{
	memset(ref_inv, -1, sizeof ref_inv);
	for (int i = 0; i < 64; i++) ref_inv[(u8) ref_alpha[i]] = (int8_t) i;
	ref_inv['='] = -2;
}

static inline size_t ref_enclen (size_t n) { return (n + 2) / 3 * 4; }

static size_t
ref_encode (const u8 *s, size_t n, u8 *o)
{
	size_t k = 0, i;
	for (i = 0; i + 3 <= n; i += 3) {
		u32 v = (u32) s[i] << 16 | (u32) s[i + 1] << 8 | s[i + 2];
		o[k++] = (u8) ref_alpha[v >> 18];
		o[k++] = (u8) ref_alpha[v >> 12 & 63];
		o[k++] = (u8) ref_alpha[v >> 6 & 63];
		o[k++] = (u8) ref_alpha[v & 63];
	}
	if (n - i == 1) {
		o[k++] = (u8) ref_alpha[s[i] >> 2];
		o[k++] = (u8) ref_alpha[(s[i] & 3) << 4];
		o[k++] = '='; o[k++] = '=';
	}
	else if (n - i == 2) {
		o[k++] = (u8) ref_alpha[s[i] >> 2];
		o[k++] = (u8) ref_alpha[(s[i] & 3) << 4 | s[i + 1] >> 4];
		o[k++] = (u8) ref_alpha[(s[i + 1] & 15) << 2];
		o[k++] = '=';
	}
	return k;
}

// Decoder model: a state machine over characters.
enum { ACTIVE, WANTPAD, ENDED };
typedef struct { int st; unsigned n; u32 acc; } RefDec;

// Feed a chunk. Returns 1 or 0; *olen gets the number of bytes determined.
// The last character decides about padding: after a final '=' nothing may
// follow, neither in this chunk nor later.
static int
ref_dec (RefDec *d, const u8 *s, size_t n, u8 *o, size_t *olen)
{
	size_t k = 0, i = 0;
	int ret = 1;

	if (d->st == ENDED) {
		*olen = 0;
		return 0;
	}
	while (i < n) {
		if (d->st == ACTIVE && d->n == 0) {
			// Fast path over whole quanta, for speed only:
			while (n - i >= 4) {
				int a = ref_inv[s[i]], b = ref_inv[s[i + 1]], c = ref_inv[s[i + 2]], e = ref_inv[s[i + 3]];
				if ((a | b | c | e) < 0) break;
				u32 v = (u32) a << 18 | (u32) b << 12 | (u32) c << 6 | (u32) e;
				o[k++] = (u8) (v >> 16); o[k++] = (u8) (v >> 8); o[k++] = (u8) v;
				i += 4;
			}
			if (i == n) break;
		}
		int v = ref_inv[s[i++]];
		if (d->st == ENDED) { ret = 0; break; }		// something after the end
		if (d->st == WANTPAD) {
			d->st = ENDED;
			if (v != -2) { ret = 0; break; }
			continue;
		}
		if (v == -2) {
			if (d->n == 2) { d->st = WANTPAD; continue; }
			if (d->n == 3) { d->st = ENDED; d->n = 0; continue; }
		}
		if (v < 0) { d->st = ENDED; ret = 0; break; }
		if (d->n == 0) d->acc = 0;
		d->acc = d->acc << 6 | (u32) v;
		d->n++;
		if (d->n == 2) o[k++] = (u8) (d->acc >> 4);
		if (d->n == 3) o[k++] = (u8) (d->acc >> 2);
		if (d->n == 4) { o[k++] = (u8) d->acc; d->n = 0; }
	}
	if (ret == 0) d->st = ENDED;
	*olen = k;
	return ret;
}

static int
ref_decode (const u8 *s, size_t n, u8 *o, size_t *olen)
{
	RefDec d = { ACTIVE, 0, 0 };
	int r = ref_dec(&d, s, n, o, olen);
	if (!r) return 0;
	if (d.st == WANTPAD) return 0;
	return d.st == ENDED || d.n == 0;
}

// ---------------------------------------------------------------- codecs
typedef struct { const char *name; int flag; } Codec;
static const Codec all_codecs[] = {
	{ "default", 0 }, { "AVX2", BASE64_FORCE_AVX2 }, { "NEON32", BASE64_FORCE_NEON32 },
	{ "NEON64", BASE64_FORCE_NEON64 }, { "PLAIN", BASE64_FORCE_PLAIN },
	{ "SSSE3", BASE64_FORCE_SSSE3 }, { "SSE41", BASE64_FORCE_SSE41 },
	{ "SSE42", BASE64_FORCE_SSE42 }, { "AVX", BASE64_FORCE_AVX }, { "AVX512", BASE64_FORCE_AVX512 },
};
#define NCODECS 10

// Can the CPU that we run on execute this codec?
static bool
cpu_can (int flag)
{
#if defined(__x86_64__) || defined(__i386__)
	__builtin_cpu_init();
	switch (flag) {
	case BASE64_FORCE_SSSE3: return __builtin_cpu_supports("ssse3");
	case BASE64_FORCE_SSE41: return __builtin_cpu_supports("sse4.1");
	case BASE64_FORCE_SSE42: return __builtin_cpu_supports("sse4.2");
	case BASE64_FORCE_AVX: return __builtin_cpu_supports("avx");
	case BASE64_FORCE_AVX2: return __builtin_cpu_supports("avx2");
	case BASE64_FORCE_AVX512:
#ifdef EMU512
		return __builtin_cpu_supports("avx2");
#else
		return __builtin_cpu_supports("avx512vl") && __builtin_cpu_supports("avx512vbmi");
#endif
	}
#endif
	(void) flag;
	return true;
}

// Is the codec in the build? As the documentation tells users to find out.
static bool
codec_present (int flag)
{
	struct base64_state st;
	size_t n = 12345;
	char o[16];
	memset(&st, 0, sizeof st);
	base64_stream_decode_init(&st, flag);
	return base64_stream_decode(&st, "", 0, o, &n) != -1;
}

static Codec codecs[NCODECS];
static int ncodecs;

static void
find_codecs (const char *filter)
{
	for (int i = 0; i < NCODECS; i++) {
		const Codec *c = &all_codecs[i];
		if (filter && strcmp(filter, "all") != 0) {
			const char *p = strstr(filter, c->name);
			size_t l = strlen(c->name);
			bool hit = false;
			for (; p; p = strstr(p + 1, c->name)) {
				if ((p == filter || p[-1] == ',') && (p[l] == ',' || p[l] == 0)) hit = true;
			}
			if (!hit) continue;
		}
		if (c->flag && (!codec_present(c->flag) || !cpu_can(c->flag))) continue;
		codecs[ncodecs++] = *c;
		printf("CODEC\t%s\n", c->name);
	}
}

// ---------------------------------------------------------------- arenas
// A region with unmapped pages on both sides, mapped twice: once writable for
// the harness and once with the protection under test.
typedef struct { u8 *rw, *use; size_t size; } Arena;

static Arena
arena_new (size_t size, bool readonly, const char *name)
{
	static int idx;
	Arena a;
	const size_t pg = 65536;	// multiple of any page size
	size = (size + pg - 1) / pg * pg;
	int fd = memfd_create("arena", 0);
	if (fd < 0) {
		// Some emulators lack it:
		char t[] = "/tmp/arenaXXXXXX";
		fd = mkstemp(t);
		unlink(t);
	}
	if (fd < 0 || ftruncate(fd, (off_t) size)) { perror("arena"); exit(3); }
	u8 *m = mmap(NULL, size + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	a.use = mmap(m + pg, size, readonly ? PROT_READ : PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0);
	a.rw = readonly ? mmap(NULL, size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0) : a.use;
	a.size = size;
	if (m == MAP_FAILED || a.use == MAP_FAILED || a.rw == MAP_FAILED) { perror("mmap"); exit(3); }
	close(fd);
	if (idx < 8) {
		crash_addr_base[idx] = (u64) (uintptr_t) a.use;
		crash_addr_size[idx] = size;
		crash_addr_name[idx] = name;
		idx++;
	}
	return a;
}

static Arena SRC, DST;

// Where to put a buffer: flush with the unmapped page after or before it.
enum { AT_END, AT_START };
static inline size_t place (const Arena *a, size_t n, int at) { return at == AT_END ? a->size - n : 0; }

#define CANARY_N 160
static inline u8 canary (size_t i) { return (u8) (0xA5 ^ (i * 37)); }

// Paint a window around [off, off+cap) in the destination.
static void
paint (size_t off, size_t cap)
{
	size_t lo = off > CANARY_N ? off - CANARY_N : 0;
	size_t hi = off + cap + CANARY_N < DST.size ? off + cap + CANARY_N : DST.size;
	for (size_t i = lo; i < hi; i++) DST.rw[i] = canary(i);
}

// Check that nothing outside of [off, off+used) was written in that window.
static void
check_paint (size_t off, size_t cap, size_t used, const char *key)
{
	size_t lo = off > CANARY_N ? off - CANARY_N : 0;
	size_t hi = off + cap + CANARY_N < DST.size ? off + cap + CANARY_N : DST.size;
	for (size_t i = lo; i < off; i++) {
		if (DST.rw[i] != canary(i)) { viol(key, "byte %ld before the output buffer was written", (long) (off - i)); return; }
	}
	for (size_t i = off + used; i < hi; i++) {
		if (DST.rw[i] != canary(i)) { viol(key, "byte at output offset %zu was written; only %zu may be (0x%02x)", i - off, used, DST.rw[i]); return; }
	}
}

// ---------------------------------------------------------------- inputs
static const char *pat_name[] = { "random", "zeros", "ones", "ramp", "sparse", "sextets" };
#define NPATS 6
static void
gen (u8 *p, size_t n, int pat, Rng *r)
{
	size_t i;
	switch (pat) {
	case 0: { u64 v = 0; for (i = 0; i < n; i++) { if ((i & 7) == 0) v = rnd(r); p[i] = (u8) (v >> (i % 8 * 8)); } } break;
	case 1: memset(p, 0, n); break;
	case 2: memset(p, 0xFF, n); break;
	case 3: { u8 s = (u8) rnd(r), d = (u8) (rnd(r) | 1); for (i = 0; i < n; i++) p[i] = (u8) (s + d * i); } break;
	case 4: memset(p, (int) rndn(r, 2) * 255, n); for (i = 0; i < n / 8 + 1 && n; i++) p[rndn(r, n)] = (u8) rnd(r); break;
	default: { // A run of a single sextet value, with a few neighbours
		u8 v = (u8) rndn(r, 64);
		for (i = 0; i < n; i++) {
			u32 w = (u32) v * 0x41041;
			p[i] = (u8) (w >> (16 - 8 * (i % 3)));
			if (rndn(r, 16) == 0) p[i] ^= (u8) (1 << rndn(r, 8));
		}
	} }
}

static void
gen_text (u8 *p, size_t n, Rng *r)
{
	size_t i;
	u64 v = 0;
	int left = 0;
	for (i = 0; i < n; i++) {
		if (left == 0) { v = rnd(r); left = 10; }
		p[i] = (u8) ref_alpha[v & 63];
		v >>= 6; left--;
	}
}

static const char *
show (const u8 *p, size_t n)
{
	static char b[4][120];
	static int k;
	char *o = b[k = (k + 1) & 3];
	size_t j = 0;
	for (size_t i = 0; i < n && i < 30; i++) j += (size_t) sprintf(o + j, (p[i] > 32 && p[i] < 127 && p[i] != '\\') ? "%c" : "\\x%02x", p[i]);
	if (n > 30) strcpy(o + j, "..."); else o[j] = 0;
	return o;
}

static size_t
first_diff (const u8 *a, const u8 *b, size_t n)
{
	size_t i;
	for (i = 0; i < n && a[i] == b[i]; i++);
	return i;
}
#endif
