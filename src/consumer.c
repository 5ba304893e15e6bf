// A user of the library, in C or C++: some round trips by all ways of calling,
// compared with an encoder of its own. With decoys (see pkg.py), it also looks
// whether they were called or changed.
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <libbase64.h>
#include <libbase64.h>
#ifdef DECOYS
#ifdef __cplusplus
extern "C"
#endif
int decoys_ok (void);
#endif
static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static size_t
ref (const unsigned char *s, size_t n, char *o)
{
	size_t k = 0, i;
	for (i = 0; i < n; i += 3) {
		unsigned long v = (unsigned long) s[i] << 16 | (i + 1 < n ? (unsigned long) s[i + 1] << 8 : 0) | (i + 2 < n ? (unsigned long) s[i + 2] : 0);
		o[k++] = al[v >> 18 & 63]; o[k++] = al[v >> 12 & 63]; o[k++] = i + 1 < n ? al[v >> 6 & 63] : '='; o[k++] = i + 2 < n ? al[v & 63] : '=';
	}
	return k;
}
static int bad;
static long evals;
static void
fail (const char *what, size_t n, int flags)
{
	printf("VIOL\tconsumer\t%s with %lu bytes, flags %d\n", what, (unsigned long) n, flags);
	bad = 1;
}
int
main (void)
{
	static unsigned char in[60000], back[60000];
	static char out[90000], want[90000];
	static const size_t lens[] = { 0, 1, 2, 3, 4, 5, 11, 24, 31, 32, 33, 47, 48, 49, 63, 64, 65, 95, 96, 97, 100, 128, 191, 192, 193, 255, 256, 1000, 4095, 9000, 19999, 20000, 20001, 33333, 59999 };
	static const int flags[] = { 0, BASE64_FORCE_PLAIN, BASE64_FORCE_SSSE3, BASE64_FORCE_SSE41, BASE64_FORCE_SSE42, BASE64_FORCE_AVX, BASE64_FORCE_AVX2, BASE64_FORCE_NEON32, BASE64_FORCE_NEON64 };
	size_t i, k, f;
	unsigned long x = 12345;
	for (i = 0; i < sizeof in; i++) { x = x * 1103515245UL + 12345UL; in[i] = (unsigned char) (x >> 16); }
	for (f = 0; f < sizeof flags / sizeof *flags; f++) for (k = 0; k < sizeof lens / sizeof *lens; k++) {
		size_t n = lens[k], m = ref(in, n, want), len = 999, o, p;
		struct base64_state st;
		int r;
#if !defined(__aarch64__) && !defined(__arm__)
		if (flags[f] == BASE64_FORCE_NEON32 || flags[f] == BASE64_FORCE_NEON64) {
			base64_encode((const char *) in, n, out, &len, flags[f]);
			if (len != 0) fail("encoding by a codec that does not exist", n, flags[f]);
			continue;
		}
#endif
#if defined(__GNUC__) && defined(__x86_64__)
		/* Only what this processor can do */
		if (flags[f] == BASE64_FORCE_AVX2 && !__builtin_cpu_supports("avx2")) continue;
		if (flags[f] == BASE64_FORCE_AVX && !__builtin_cpu_supports("avx")) continue;
#endif
		evals++;
		memset(out, 0x55, sizeof out);
		if (flags[f] != 0 && flags[f] != BASE64_FORCE_PLAIN && base64_decode("YWJj", 4, (char *) back, &len, flags[f]) == -1) {
			base64_encode((const char *) in, n, out, &len, flags[f]);
			if (len != 0) fail("encoding by a codec that is not there", n, flags[f]);
			continue;
		}
		base64_encode((const char *) in, n, out, &len, flags[f]);
		if (len != m || memcmp(out, want, m)) fail("base64_encode", n, flags[f]);
		r = base64_decode(want, m, (char *) back, &len, flags[f]);
		if (r != 1 || len != n || memcmp(back, in, n)) fail("base64_decode", n, flags[f]);
		base64_stream_encode_init(&st, flags[f]);
		for (o = 0, i = 0; i < n; i += p) { p = n - i < 1 + n / 3 ? n - i : 1 + n / 3; base64_stream_encode(&st, (const char *) in + i, p, out + o, &len); o += len; }
		base64_stream_encode_final(&st, out + o, &len);
		if (o + len != m || memcmp(out, want, m)) fail("base64_stream_encode", n, flags[f]);
		base64_stream_decode_init(&st, flags[f]);
		for (o = 0, i = 0, r = 1; i < m && r == 1; i += p) { p = m - i < 1 + m / 3 ? m - i : 1 + m / 3; r = base64_stream_decode(&st, want + i, p, (char *) back + o, &len); o += len; }
		if (r != 1 || o != n || memcmp(back, in, n)) fail("base64_stream_decode", n, flags[f]);
		if (m > 4) { want[m / 2] = '!'; r = base64_decode(want, m, (char *) back, &len, flags[f]); if (r != 0) fail("base64_decode of an invalid text", n, flags[f]); }
	}
#ifdef DECOYS
	if (!decoys_ok()) bad = 1;
#endif
	printf("STAT\tevaluations\t%ld\nSTAT\tdistinct\t%ld\nEND\t%d\n", evals, evals, bad);
	return bad;
}
