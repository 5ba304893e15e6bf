// Software versions of the AVX-512 intrinsics that the library may use.
#include_next <immintrin.h>
#ifndef EMU512_H
#define EMU512_H
#include <stdint.h>
#include <string.h>

typedef struct { uint8_t b[64]; } emu512_t;
#define __m512i emu512_t
#define EMU512 static inline __attribute__((always_inline, unused))

EMU512 emu512_t emu_loadu (const void *p) { emu512_t r; memcpy(r.b, p, 64); return r; }
EMU512 void emu_storeu (void *p, emu512_t v) { memcpy(p, v.b, 64); }
EMU512 emu512_t emu_set1_8 (int8_t v) { emu512_t r; memset(r.b, v, 64); return r; }
EMU512 emu512_t emu_set1_32 (int32_t v) { emu512_t r; for (int i = 0; i < 16; i++) memcpy(r.b + 4 * i, &v, 4); return r; }
EMU512 emu512_t emu_set1_64 (int64_t v) { emu512_t r; for (int i = 0; i < 8; i++) memcpy(r.b + 8 * i, &v, 8); return r; }
EMU512 emu512_t emu_setr_32 (int a, int b, int c, int d, int e, int f, int g, int h, int i, int j, int k, int l, int m, int n, int o, int p)
{ int32_t v[16] = { a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p }; emu512_t r; memcpy(r.b, v, 64); return r; }
EMU512 emu512_t emu_setr_64 (int64_t a, int64_t b, int64_t c, int64_t d, int64_t e, int64_t f, int64_t g, int64_t h)
{ int64_t v[8] = { a, b, c, d, e, f, g, h }; emu512_t r; memcpy(r.b, v, 64); return r; }
EMU512 emu512_t emu_permutexvar_8 (emu512_t idx, emu512_t a) { emu512_t r; for (int i = 0; i < 64; i++) r.b[i] = a.b[idx.b[i] & 63]; return r; }
EMU512 emu512_t emu_permutexvar_32 (emu512_t idx, emu512_t a) { emu512_t r; for (int i = 0; i < 16; i++) memcpy(r.b + 4 * i, a.b + 4 * (idx.b[4 * i] & 15), 4); return r; }
EMU512 emu512_t emu_multishift (emu512_t sh, emu512_t a)
{
	emu512_t r;
	for (int i = 0; i < 8; i++) {
		uint64_t v;
		memcpy(&v, a.b + 8 * i, 8);
		for (int j = 0; j < 8; j++) {
			unsigned s = sh.b[8 * i + j] & 63;
			r.b[8 * i + j] = (uint8_t) (s ? v >> s | v << (64 - s) : v);
		}
	}
	return r;
}
EMU512 emu512_t emu_shuffle_8 (emu512_t a, emu512_t m) { emu512_t r; for (int i = 0; i < 64; i++) r.b[i] = m.b[i] & 0x80 ? 0 : a.b[(i & 48) | (m.b[i] & 15)]; return r; }
EMU512 emu512_t emu_and (emu512_t a, emu512_t b) { for (int i = 0; i < 64; i++) a.b[i] &= b.b[i]; return a; }
EMU512 emu512_t emu_or (emu512_t a, emu512_t b) { for (int i = 0; i < 64; i++) a.b[i] |= b.b[i]; return a; }
EMU512 emu512_t emu_xor (emu512_t a, emu512_t b) { for (int i = 0; i < 64; i++) a.b[i] ^= b.b[i]; return a; }

#define _mm512_loadu_si512(p) emu_loadu(p)
#define _mm512_loadu_epi8(p) emu_loadu(p)
#define _mm512_loadu_epi32(p) emu_loadu(p)
#define _mm512_loadu_epi64(p) emu_loadu(p)
#define _mm512_load_si512(p) emu_loadu(p)
#define _mm512_storeu_si512(p, v) emu_storeu(p, v)
#define _mm512_storeu_epi8(p, v) emu_storeu(p, v)
#define _mm512_storeu_epi32(p, v) emu_storeu(p, v)
#define _mm512_storeu_epi64(p, v) emu_storeu(p, v)
#define _mm512_store_si512(p, v) emu_storeu(p, v)
#define _mm512_set1_epi8(v) emu_set1_8(v)
#define _mm512_set1_epi32(v) emu_set1_32(v)
#define _mm512_set1_epi64(v) emu_set1_64(v)
#define _mm512_setr_epi32 emu_setr_32
#define _mm512_set_epi32(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p) emu_setr_32(p, o, n, m, l, k, j, i, h, g, f, e, d, c, b, a)
#define _mm512_setr_epi64 emu_setr_64
#define _mm512_set_epi64(a, b, c, d, e, f, g, h) emu_setr_64(h, g, f, e, d, c, b, a)
#define _mm512_permutexvar_epi8 emu_permutexvar_8
#define _mm512_permutexvar_epi32 emu_permutexvar_32
#define _mm512_multishift_epi64_epi8 emu_multishift
#define _mm512_shuffle_epi8 emu_shuffle_8
#define _mm512_and_si512 emu_and
#define _mm512_or_si512 emu_or
#define _mm512_xor_si512 emu_xor
#endif
