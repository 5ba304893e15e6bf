// What is in the library that this is linked with? For every flag: whether the
// codec is included, by a decoding stream and by base64_decode(), whether it
// works (as far as the processor can run it), and how many threads a long call
// leaves behind.
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <dirent.h>
#include <unistd.h>
#include <sys/wait.h>
#include <libbase64.h>
static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const struct { const char *name; int flag; } F[] = { { "PLAIN", BASE64_FORCE_PLAIN }, { "SSSE3", BASE64_FORCE_SSSE3 }, { "SSE41", BASE64_FORCE_SSE41 }, { "SSE42", BASE64_FORCE_SSE42 }, { "AVX", BASE64_FORCE_AVX },
	{ "AVX2", BASE64_FORCE_AVX2 }, { "AVX512", BASE64_FORCE_AVX512 }, { "NEON32", BASE64_FORCE_NEON32 }, { "NEON64", BASE64_FORCE_NEON64 }, { "default", 0 } };
static size_t
ref (const unsigned char *s, size_t n, char *o)
{
	size_t k = 0, i;
	for (i = 0; i < n; i += 3) {
		unsigned long v = (unsigned long) s[i] << 16 | (i + 1 < n ? (unsigned long) s[i + 1] << 8 : 0) | (i + 2 < n ? (unsigned long) s[i + 2] : 0);
		o[k++] = al[v >> 18 & 63]; o[k++] = al[v >> 12 & 63]; o[k++] = i + 1 < n ? al[v >> 6 & 63] : '='; o[k++] = i + 2 < n ? al[v & 63] : '=';
	}
	return k;
}
static int
can (const char *n)
{
#if defined(__x86_64__) || defined(__i386__)
	if (!strcmp(n, "SSSE3")) return __builtin_cpu_supports("ssse3");
	if (!strcmp(n, "SSE41")) return __builtin_cpu_supports("sse4.1");
	if (!strcmp(n, "SSE42")) return __builtin_cpu_supports("sse4.2");
	if (!strcmp(n, "AVX")) return __builtin_cpu_supports("avx");
	if (!strcmp(n, "AVX2")) return __builtin_cpu_supports("avx2");
	if (!strcmp(n, "AVX512")) return __builtin_cpu_supports("avx512vbmi") && __builtin_cpu_supports("avx512vl");
#endif
	return 1;
}
#define BIG 900000
int
main (int argc, char **argv)
{
	static unsigned char in[BIG], back[BIG + 8];
	static char out[BIG * 4 / 3 + 16], want[BIG * 4 / 3 + 16];
	static const size_t lens[] = { 0, 1, 2, 3, 4, 5, 23, 48, 100, 257, 1000, 9999, 60001, BIG };
	size_t k, f, i, len;
	unsigned long x = 99;
	long evals = 0;
	int bad = 0;
	for (i = 0; i < BIG; i++) { x = x * 1103515245UL + 12345UL; in[i] = (unsigned char) (x >> 16); }
	for (f = 0; f < sizeof F / sizeof *F; f++) {
		struct base64_state st;
		int a, b;
		base64_stream_decode_init(&st, F[f].flag);
		if (!can(F[f].name)) {		// may trap, which also shows that it is there
			fflush(stdout);
			pid_t p = fork();
			if (p == 0) _exit(base64_stream_decode(&st, "YWJj", 4, (char *) back, &len) == -1 ? 7 : 0);
			if (waitpid(p, &a, 0) == p && !(WIFEXITED(a) && WEXITSTATUS(a) == 7)) printf("HAS\t%s\n", F[f].name);
			evals++;
			continue;
		}
		len = 77; a = base64_stream_decode(&st, "YWJj", 4, (char *) back, &len);
		b = base64_decode("YWJj", 4, (char *) back, &len, F[f].flag);
		if (a != b || (a != -1 && a != 1)) { printf("VIOL\tprobe\t%s: the stream returns %d, base64_decode() %d\n", F[f].name, a, b); bad = 1; continue; }
		evals += 2;
		if (a == -1) continue;
		printf("HAS\t%s\n", F[f].name);
		for (k = 0; k < sizeof lens / sizeof *lens; k++) {
			size_t n = lens[k], m = ref(in, n, want);
			base64_encode((const char *) in, n, out, &len, F[f].flag); evals++;
			if (len != m || memcmp(out, want, m)) { printf("VIOL\tprobe\t%s encodes %lu bytes wrongly\n", F[f].name, (unsigned long) n); bad = 1; }
			a = base64_decode(want, m, (char *) back, &len, F[f].flag); evals++;
			if (a != 1 || len != n || memcmp(back, in, n)) { printf("VIOL\tprobe\t%s decodes %lu bytes wrongly\n", F[f].name, (unsigned long) n); bad = 1; }
		}
	}
	DIR *d = opendir("/proc/self/task");
	int threads = 0;
	if (d) { struct dirent *e; while ((e = readdir(d))) threads += e->d_name[0] != '.'; closedir(d); }
	printf("THREADS\t%d\nSTAT\tevaluations\t%ld\nSTAT\tdistinct\t%ld\nEND\t%d\n", threads, evals, evals, bad);
	return bad;
}
