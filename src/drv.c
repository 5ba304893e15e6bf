// API-level monitors: drives the real library over large input spaces and
// compares every call with the reference model in common.h.
#include "common.h"
#include "regs.h"
#include <sys/resource.h>

static u64 seed;
static int scale;	// 0: emulators and slow tools, 1: quick, 2: thorough
static u8 *ref_buf, *ref_buf2;
static size_t maxlen;

#define FOR_CODECS for (const Codec *c = codecs; c < codecs + ncodecs; c++)

// ------------------------------------------------------------------ C01/C07
// Encode SRC[soff, +n) to DST[doff...] in one go, check everything.
static size_t
do_encode (const Codec *c, int api, size_t soff, size_t n, size_t doff)
{
	size_t outlen = (size_t) 0xDEADBEEF, cap = ref_enclen(n);
	const char *src = (const char *) SRC.use + soff;
	char *dst = (char *) DST.use + doff;

	paint(doff, cap);
	if (api == 0) {
		base64_encode(src, n, dst, &outlen, c->flag);
	}
	else {
		struct base64_state st;
		size_t t = 0xDEADBEEF;
		memset(&st, (int) (n * 7 + 1), sizeof st);
		base64_stream_encode_init(&st, c->flag);
		base64_stream_encode(&st, src, n, dst, &outlen);
		if (outlen > cap) {
			viol("enc-outlen", "stream_encode reports %zu bytes for %zu", outlen, n);
			return 0;
		}
		check_paint(doff, cap, outlen, "enc-write");
		base64_stream_encode_final(&st, dst + outlen, &t);
		outlen += t;
	}
	if (outlen != cap) {
		viol("enc-outlen", "outlen is %zu, must be %zu", outlen, cap);
		return 0;
	}
	check_paint(doff, cap, cap, "enc-write");
	ref_encode(SRC.rw + soff, n, ref_buf);
	if (memcmp(ref_buf, dst, cap)) {
		size_t d = first_diff(ref_buf, (u8 *) dst, cap);
		viol("enc-content", "wrong output at offset %zu: '%c' (0x%02x), must be '%c'; input from offset %zu is %s",
			d, dst[d], (u8) dst[d], ref_buf[d], d / 4 * 3, show(SRC.rw + soff + d / 4 * 3, n - d / 4 * 3 < 3 ? n - d / 4 * 3 : 3));
		return 0;
	}
	return cap;
}

static void
mode_enc (void)
{
	const size_t L = scale == 0 ? 900 : scale == 1 ? 4300 : 9000;

	FOR_CODECS {
		Rng r = rng_for(seed, 1, (u64) c->flag);
		// All lengths:
		for (size_t n = 0; n <= L; n++) {
			int reps = scale == 0 ? 1 : scale == 1 ? 3 : 12;
			for (int k = 0; k < reps; k++) {
				int pat = k == 0 ? 0 : (int) rndn(&r, NPATS), api = (int) (n + k) & 1;
				size_t soff = place(&SRC, n, (int) (n / 2 + k) & 1), doff = place(&DST, ref_enclen(n), (int) (n / 4) & 1);
				CASE("encode codec=%s api=%d n=%zu pattern=%s", c->name, api, n, pat_name[pat]);
				gen(SRC.rw + soff, n, pat, &r);
				do_encode(c, api, soff, n, doff);
				seen(hash_bytes(SRC.rw + soff, n < 64 ? n : 64, n * 16 + (u64) c->flag));
			}
		}
		// Larger ones, random and around powers of two:
		int big = scale == 0 ? 60 : scale == 1 ? 250 : 2500;
		for (int k = 0; k < big; k++) {
			size_t n;
			if (k & 1) n = ((size_t) 1 << (10 + rndn(&r, scale == 0 ? 6 : 11))) + rndn(&r, 129) - 64;
			else n = rndn(&r, scale == 0 ? 20000 : 60000);
			int pat = (int) rndn(&r, NPATS), api = (int) rndn(&r, 2);
			size_t soff = place(&SRC, n, k & 1), doff = place(&DST, ref_enclen(n), k >> 1 & 1);
			CASE("encode codec=%s api=%d n=%zu pattern=%s", c->name, api, n, pat_name[pat]);
			gen(SRC.rw + soff, n, pat, &r);
			do_encode(c, api, soff, n, doff);
			seen(hash_bytes(SRC.rw + soff, n < 64 ? n : 64, n * 16 + (u64) c->flag));
		}
		// Some megabytes:
		for (int k = 0; k < 3; k++) {
			size_t n = (k == 2 && scale ? 6400000u : 3200000u) + rndn(&r, 3000), soff = place(&SRC, n, k & 1), doff = place(&DST, ref_enclen(n), k & 1);
			CASE("encode-long codec=%s api=%d n=%zu", c->name, k & 1, n);
			gen(SRC.rw + soff, n, 0, &r);
			do_encode(c, k & 1, soff, n, doff);
			seen((u64) n * 16 + (u64) c->flag);
		}
		sample("encode codec=%s: all lengths 0..%zu, %d random ones up to 2^20, some of 3.2 to 6.4 MB", c->name, L, big);
	}
}

// All 2^24 three-byte groups, in an order that depends on the seed. Blocks of
// 65536 groups; with more passes, each group meets other positions (lanes).
static void
mode_enc24 (void)
{
	FOR_CODECS {
		Rng r = rng_for(seed, 2, (u64) c->flag);
		int passes = scale == 2 ? 16 : 1;
		for (int p = 0; p < passes; p++) {
			u32 mul = (u32) (rnd(&r) | 1), add = (u32) rnd(&r);
			for (u32 b = 0; b < 256; b++) {
				const size_t lead = (size_t) (3 * (p % 16)), n = 3 * 65536 + lead;
				size_t soff = place(&SRC, n, AT_END), doff = place(&DST, ref_enclen(n), AT_END);
				u8 *s = SRC.rw + soff + lead;
				CASE("encode24 codec=%s pass=%d block=%u mul=%u add=%u", c->name, p, b, mul, add);
				memset(SRC.rw + soff, 0x5A, lead);
				for (u32 i = 0; i < 65536; i++) {
					u32 v = ((b << 16 | i) * mul + add) & 0xFFFFFF;
					*s++ = (u8) (v >> 16); *s++ = (u8) (v >> 8); *s++ = (u8) v;
				}
				do_encode(c, b & 1, soff, n, doff);
				seen(((u64) p << 32 | b << 8) * 131 + (u64) c->flag);
			}
			n_evals += 65535u * 256;
		}
		printf("STAT\ttriples\t%llu\n", (unsigned long long) passes << 24);
		sample("encode24 codec=%s: all 16777216 byte triples, %d pass(es)", c->name, passes);
	}
}

// ------------------------------------------------------------------ C02/C03
// Decode SRC[soff, +n) and compare with the model.
// exact: require the output untouched beyond the decoded data on success.
static void
do_decode (const Codec *c, int api, size_t soff, size_t n, size_t doff)
{
	size_t outlen = (size_t) 0xDEADBEEF, rlen, cap = n / 4 * 3 + (n % 4) * 3 / 4;
	const char *src = (const char *) SRC.use + soff;
	char *dst = (char *) DST.use + doff;
	int ret, rret;

	paint(doff, cap);
	if (api == 0) {
		ret = base64_decode(src, n, dst, &outlen, c->flag);
		rret = ref_decode(SRC.rw + soff, n, ref_buf, &rlen);
	}
	else {
		struct base64_state st;
		RefDec d = { ACTIVE, 0, 0 };
		memset(&st, (int) (n * 5 + 1), sizeof st);
		base64_stream_decode_init(&st, c->flag);
		ret = base64_stream_decode(&st, src, n, dst, &outlen);
		rret = ref_dec(&d, SRC.rw + soff, n, ref_buf, &rlen);
	}
	if (ret != rret) {
		viol(rret ? "dec-reject" : "dec-accept", "returned %d, must be %d; text %s ... %s",
			ret, rret, show(SRC.rw + soff, n), show(SRC.rw + soff + (n > 24 ? n - 24 : 0), n > 24 ? 24 : n));
		return;
	}
	if (outlen > cap) {
		viol("dec-outlen", "outlen is %zu for %zu characters", outlen, n);
		return;
	}
	check_paint(doff, cap, ret ? rlen : cap, "dec-write");
	// *outlen and data after a failing one-shot call: a correct prefix.
	if ((ret || api) ? outlen != rlen : outlen > rlen) {
		viol("dec-outlen", "outlen is %zu, must be %zu (returned %d)", outlen, rlen, ret);
		return;
	}
	if (memcmp(ref_buf, dst, outlen)) {
		size_t d = first_diff(ref_buf, (u8 *) dst, outlen);
		viol("dec-content", "wrong output at offset %zu: 0x%02x, must be 0x%02x; text there is %s",
			d, (u8) dst[d], ref_buf[d], show(SRC.rw + soff + d / 3 * 4, 4));
	}
}

static void
mode_dec (void)
{
	const size_t L = scale == 0 ? 700 : scale == 1 ? 4300 : 9000;

	FOR_CODECS {
		Rng r = rng_for(seed, 3, (u64) c->flag);
		int big = scale == 0 ? 60 : scale == 1 ? 250 : 2500;
		for (size_t k = 0; k <= L + (size_t) big; k++) {
			size_t n = k;
			int reps = scale == 0 ? 1 : scale == 1 ? 2 : 8;
			if (k > L) {
				n = (k & 1) ? ((size_t) 1 << (10 + rndn(&r, scale == 0 ? 6 : 11))) + rndn(&r, 129) - 64 : rndn(&r, scale == 0 ? 20000 : 60000);
				reps = 1;
			}
			for (int j = 0; j < reps; j++) {
				int pat = j == 0 ? 0 : (int) rndn(&r, NPATS), api = (int) (n + j) & 1;
				size_t m = ref_enclen(n), e = 0;
				size_t soff = place(&SRC, m, (int) (n / 2 + j) & 1), cap = m / 4 * 3;
				size_t doff = place(&DST, cap, (int) (n / 4) & 1);
				gen(ref_buf2, n, pat, &r);
				if (j == 0) {
					ref_encode(ref_buf2, n, SRC.rw + soff);
					CASE("decode codec=%s api=%d n=%zu pattern=%s", c->name, api, n, pat_name[pat]);
				}
				else {
					// Encoded by the library itself, with another codec:
					const Codec *o = &codecs[rndn(&r, (u64) ncodecs)];
					CASE("roundtrip %s->%s api=%d n=%zu pattern=%s", o->name, c->name, api, n, pat_name[pat]);
					base64_encode((char *) ref_buf2, n, (char *) SRC.rw + soff, &e, o->flag);
					if (e != m) {
						viol("enc-outlen", "encoding gives %zu characters, must be %zu", e, m);
						continue;
					}
				}
				do_decode(c, api, soff, m, doff);
				if (n && (memcmp(DST.rw + doff, ref_buf2, n) != 0)) {
					viol("roundtrip", "decoded data differ from the original at offset %zu", first_diff(DST.rw + doff, ref_buf2, n));
				}
				seen(hash_bytes(SRC.rw + soff, m < 64 ? m : 64, n * 16 + (u64) c->flag));
			}
		}
		for (int k = 0; k < 3; k++) {
			size_t n = (k == 2 && scale ? 6400000u : 3200000u) + rndn(&r, 3000), m = ref_enclen(n), soff = place(&SRC, m, k & 1), doff = place(&DST, m / 4 * 3, k & 1);
			CASE("decode-long codec=%s api=%d n=%zu", c->name, k & 1, n);
			gen(ref_buf2, n, 0, &r);
			ref_encode(ref_buf2, n, SRC.rw + soff);
			do_decode(c, k & 1, soff, m, doff);
			if (memcmp(DST.rw + doff, ref_buf2, n) != 0) viol("roundtrip", "decoded data differ from the original at offset %zu", first_diff(DST.rw + doff, ref_buf2, n));
			seen((u64) n * 16 + (u64) c->flag);
		}
		sample("decode codec=%s: all data lengths 0..%zu, %d random ones up to 2^20, some of 3.2 to 6.4 MB", c->name, L, big);
	}
}

static void
mode_dec24 (void)
{
	FOR_CODECS {
		Rng r = rng_for(seed, 4, (u64) c->flag);
		int passes = scale == 2 ? 16 : 1;
		for (int p = 0; p < passes; p++) {
			u32 mul = (u32) (rnd(&r) | 1), add = (u32) rnd(&r);
			for (u32 b = 0; b < 256; b++) {
				const size_t lead = (size_t) (4 * (p % 16)), n = 4 * 65536 + lead;
				size_t soff = place(&SRC, n, AT_END), doff = place(&DST, n / 4 * 3, AT_END);
				u8 *s = SRC.rw + soff + lead;
				CASE("decode24 codec=%s pass=%d block=%u mul=%u add=%u", c->name, p, b, mul, add);
				memset(SRC.rw + soff, 'q', lead);
				for (u32 i = 0; i < 65536; i++) {
					u32 v = ((b << 16 | i) * mul + add) & 0xFFFFFF;
					*s++ = (u8) ref_alpha[v >> 18]; *s++ = (u8) ref_alpha[v >> 12 & 63];
					*s++ = (u8) ref_alpha[v >> 6 & 63]; *s++ = (u8) ref_alpha[v & 63];
				}
				do_decode(c, b & 1, soff, n, doff);
				seen(((u64) p << 32 | b << 8) * 137 + (u64) c->flag);
			}
			n_evals += 65535u * 256;
		}
		printf("STAT\tquads\t%llu\n", (unsigned long long) passes << 24);
		sample("decode24 codec=%s: all 16777216 character quads, %d pass(es)", c->name, passes);
	}
}

// Bytes next to the borders of the alphabet's ranges, and similar bit patterns.
static const u8 edgy[] = { '=', 0, 0x0a, 0x0d, 0x20, '!', '"', '*', ',', '-', '.', ':', ';', '<', '>', '?', '@', '[', '\\', '^', '_', '`', '{', '|', '~', 0x7f,
	0x80, 0x8b, 0xab, 0xaf, 0xad, 0xb0, 0xb9, 0xbd, 0xc1, 0xda, 0xdf, 0xe1, 0xfa, 0xfb, 0xfe, 0xff, 0x0b, 0x0f, 0x1b, 0x2e };

static void
mode_lang (void)
{
	FOR_CODECS {
		Rng r = rng_for(seed, 5, (u64) c->flag);
		u64 before = n_evals;

		// 1. Every byte value at every position.
		size_t step = scale == 0 ? 52 : 4, top = scale == 0 ? 220 : scale == 1 ? 200 : 420;
		for (size_t n = 4; n <= top; n += step) {
			size_t doff = place(&DST, n / 4 * 3, (int) (n >> 2 & 1)), soff = place(&SRC, n, (int) (n >> 3 & 1));
			u8 *s = SRC.rw + soff;
			gen_text(s, n, &r);
			for (int pad = 0; pad <= 2; pad++) {
				if (scale == 0 && pad != (int) (n / 4 % 3)) continue;
				if (scale == 1 && pad && n > 64 && (n / 4) % 2) continue;
				u8 t0 = s[n - 1], t1 = s[n - 2];
				if (pad >= 1) s[n - 1] = '=';
				if (pad == 2) s[n - 2] = '=';
				for (size_t p = 0; p < n; p++) {
					u8 old = s[p];
					for (int v = 0; v < 256; v++) {
						// For long texts and emulators, thin out the plain letters:
						if (scale == 0 && v < 128 && ref_inv[v] >= 0 && (v + p) % 8) continue;
						s[p] = (u8) v;
						CASE("lang codec=%s n=%zu pad=%d pos=%zu byte=0x%02x", c->name, n, pad, p, v);
						do_decode(c, 0, soff, n, doff);
						seen(((u64) n << 40 | p << 16 | (u64) pad << 8 | (u64) v) * 31 + (u64) c->flag);
					}
					s[p] = old;
				}
				s[n - 1] = t0; s[n - 2] = t1;
			}
		}
		sample("lang codec=%s: all 256 byte values at all positions of texts of %s lengths up to %zu", c->name, scale ? "all multiple-of-4" : "some", top);

		// 2. All short strings over representatives of each class.
		static const u8 cls[] = { 'A', '=', '/', '+', 'z', '9', '-', 0x80 };
		for (size_t n = 0; n <= (scale == 2 ? 7 : scale == 1 ? 6 : 5); n++) {
			u64 tot = 1;
			size_t k = n <= 5 ? sizeof cls : 5;
			for (size_t i = 0; i < n; i++) tot *= k;
			size_t doff = place(&DST, n * 3 / 4, AT_END), soff = place(&SRC, n, AT_END);
			for (u64 v = 0; v < tot; v++) {
				u64 w = v;
				for (size_t i = 0; i < n; i++) { SRC.rw[soff + i] = cls[w % k]; w /= k; }
				CASE("lang-short codec=%s n=%zu v=%llu", c->name, n, (unsigned long long) v);
				do_decode(c, 0, soff, n, doff);
				seen(v * 16 + n + ((u64) c->flag << 50));
			}
		}

		// 3. '=' signs and garbage in all subsets of the last characters.
		for (size_t n = 1; n <= (scale == 0 ? 100u : 330u); n++) {
			size_t w = n < 6 ? n : 6;
			size_t doff = place(&DST, n * 3 / 4, (int) (n & 1)), soff = place(&SRC, n, (int) (n >> 1 & 1));
			u8 *s = SRC.rw + soff;
			gen_text(s, n, &r);
			u8 keep[8];
			memcpy(keep, s + n - w, w);
			for (u32 m = 0; m < 1u << w; m++) {
				if (scale == 0 && m > 3 && rndn(&r, 4)) continue;
				memcpy(s + n - w, keep, w);
				for (size_t i = 0; i < w; i++) if (m >> i & 1) s[n - 1 - i] = '=';
				if (m > 7 && rndn(&r, 3) == 0) s[n - 1 - rndn(&r, w)] = edgy[rndn(&r, sizeof edgy)];
				CASE("lang-pad codec=%s n=%zu mask=%u", c->name, n, m);
				do_decode(c, 0, soff, n, doff);
				seen(((u64) n << 20 | m) * 3 + ((u64) c->flag << 40));
			}
		}

		// 4. Longer texts with one or a few bad characters or '=' anywhere.
		int reps = scale == 0 ? 1500 : scale == 1 ? 30000 : 400000;
		for (int k = 0; k < reps; k++) {
			size_t n = (k & 3) ? rndn(&r, 700) : rndn(&r, scale == 0 ? 2000 : 9000);
			if (rndn(&r, 4)) n &= ~(size_t) 3;
			size_t doff = place(&DST, n * 3 / 4, k & 1), soff = place(&SRC, n, k >> 1 & 1);
			u8 *s = SRC.rw + soff;
			gen_text(s, n, &r);
			if (n && rndn(&r, 3) == 0) { s[n - 1] = '='; if (n > 1 && rndn(&r, 2)) s[n - 2] = '='; }
			int bad = (int) rndn(&r, 4);
			size_t pos = 0;
			for (int j = 0; j < bad && n; j++) {
				u8 v = rndn(&r, 2) ? edgy[rndn(&r, sizeof edgy)] : (u8) rnd(&r);
				// Errors tend to come in pairs, at the same lane or nearby:
				if (j && rndn(&r, 2)) { size_t q = pos + ((size_t[]) { 1, 2, 4, 8, 16, 32, 64, 63 })[rndn(&r, 8)]; pos = q < n ? q : rndn(&r, n); }
				else pos = rndn(&r, n);
				s[pos] = v;
			}
			CASE("lang-long codec=%s n=%zu bad=%d case=%d", c->name, n, bad, k);
			do_decode(c, k & 1 && rndn(&r, 2), soff, n, doff);
			seen(hash_bytes(s, n < 96 ? n : 96, pos * 16 + (u64) c->flag));
		}
		// One bad character anywhere in a text of many rounds, past every
		// unrolled part of a loop. Emulators: the edgy values only.
		for (int k = 0; k < (scale == 2 ? 3 : 1); k++) {
			size_t n = scale == 0 ? 720 : 1280 + rndn(&r, 40) * 4, doff = place(&DST, n / 4 * 3, k & 1), soff = place(&SRC, n, 1);
			u8 *s = SRC.rw + soff;
			gen_text(s, n, &r);
			for (size_t p = 0; p < n; p++) {
				u8 old = s[p];
				for (int v = 0; v < 256; v++) {
					if (scale == 0 && ((u8) v != edgy[p % sizeof edgy] && (u8) v != edgy[(p * 7 + 3) % sizeof edgy])) continue;
					if (ref_inv[v] >= 0 && (v + p) % 8) continue;
					s[p] = (u8) v;
					CASE("lang-rounds codec=%s n=%zu pos=%zu byte=0x%02x", c->name, n, p, v);
					do_decode(c, 0, soff, n, doff);
					seen(((u64) n << 40 | p << 16 | (u64) v) * 29 + (u64) c->flag);
				}
				s[p] = old;
			}
		}
		// 5. Some megabytes, with a bad character anywhere, or near the end, or none
		for (int k = 0; k < (scale ? 4 : 2); k++) {
			size_t n = 4270000 + rndn(&r, 3000) * 4, soff = place(&SRC, n, k & 1), doff = place(&DST, n / 4 * 3, k & 1);
			u8 *s = SRC.rw + soff;
			gen_text(s, n, &r);
			size_t p = (k & 1) ? n - 1 - rndn(&r, 200) : rndn(&r, n);
			if (k < 3) s[p] = edgy[rndn(&r, sizeof edgy)];
			CASE("lang-megabytes codec=%s n=%zu pos=%zu byte=0x%02x", c->name, n, p, s[p]);
			do_decode(c, k >> 1 & 1, soff, n, doff);
			seen((u64) n * 16 + (u64) c->flag);
		}
		printf("STAT\tlang:%s\t%llu\n", c->name, (unsigned long long) (n_evals - before));
	}
}

// ------------------------------------------------------------------ C04
#define MAXCUT 6000
static size_t cuts[MAXCUT];
static int ncuts;

static void
random_cuts (size_t n, Rng *r, bool empties)
{
	static const size_t typical[] = { 1, 2, 3, 4, 5, 7, 8, 12, 15, 16, 17, 23, 24, 25, 27, 28, 31, 32, 33, 44, 45, 46, 47, 48, 49, 63, 64, 65, 72, 76, 77, 95, 96, 97, 128, 144, 192, 256 };
	int style = (int) rndn(r, 5);
	size_t at = 0, fixed = 1 + rndn(r, 200);
	ncuts = 0;
	while (at < n && ncuts < MAXCUT - 2) {
		size_t k;
		if (empties && rndn(r, 12) == 0) { cuts[ncuts++] = 0; continue; }
		switch (style) {
		case 0: k = 1 + rndn(r, 4); break;
		case 1: k = typical[rndn(r, sizeof typical / sizeof *typical)]; break;
		case 2: k = 1 + rndn(r, n); break;
		case 3: k = fixed; break;
		default: k = rndn(r, 3) ? 1 + rndn(r, 3) : 40 + rndn(r, 400); break;
		}
		if (k > n - at) k = n - at;
		cuts[ncuts++] = k;
		at += k;
	}
	if (at < n) cuts[ncuts++] = n - at;
	if (empties && rndn(r, 4) == 0) cuts[ncuts++] = 0;
}

static const char *
show_cuts (void)
{
	static char b[160];
	int j = 0;
	for (int i = 0; i < ncuts && j < 140; i++) j += sprintf(b + j, "%s%zu", i ? "+" : "", cuts[i]);
	return b;
}

// The data are in ref_buf2, n bytes; the expected text in ref_buf.
static void
do_chunked_encode (const Codec *c, size_t n, int at)
{
	struct base64_state st;
	size_t pos = 0, out = 0, len;
	const size_t total = ref_enclen(n);

	memset(&st, (int) (n + 3), sizeof st);
	base64_stream_encode_init(&st, c->flag);
	for (int i = 0; i < ncuts; i++) {
		size_t k = cuts[i];
		size_t soff = place(&SRC, k, at), cap = (pos % 3 + k + 2) / 3 * 4, doff;
		doff = place(&DST, cap, at);
		memcpy(SRC.rw + soff, ref_buf2 + pos, k);
		paint(doff, cap);
		len = 0xDEADBEEF;
		base64_stream_encode(&st, (char *) SRC.use + soff, k, (char *) DST.use + doff, &len);
		if (len > cap || out + len > total) {
			viol("enc-chunk-outlen", "chunk %d of %s: outlen is %zu, more than possible", i, show_cuts(), len);
			return;
		}
		check_paint(doff, cap, len, "enc-write");
		if (memcmp(DST.rw + doff, ref_buf + out, len)) {
			viol("enc-chunk-content", "chunk %d of %s: wrong output at total offset %zu", i, show_cuts(), out + first_diff(DST.rw + doff, ref_buf + out, len));
			return;
		}
		out += len;
		pos += k;
	}
	size_t doff = place(&DST, 4, at);
	paint(doff, 4);
	len = 0xDEADBEEF;
	base64_stream_encode_final(&st, (char *) DST.use + doff, &len);
	if (len > 4 || out + len != total) {
		viol("enc-chunk-outlen", "chunks %s: total output is %zu, must be %zu", show_cuts(), out + len, total);
		return;
	}
	check_paint(doff, 4, len, "enc-write");
	if (memcmp(DST.rw + doff, ref_buf + out, len)) {
		viol("enc-chunk-content", "chunks %s: wrong trailer %s", show_cuts(), show(DST.rw + doff, len));
	}
}

static void
mode_schunk (void)
{
	FOR_CODECS {
		Rng r = rng_for(seed, 6, (u64) c->flag);
		size_t two = scale == 0 ? 70 : scale == 1 ? 200 : 500, three = scale == 0 ? 9 : scale == 1 ? 24 : 60;
		gen(ref_buf2, 4096, 0, &r);
		for (size_t n = 0; n <= two; n++) {
			ref_encode(ref_buf2, n, ref_buf);
			for (size_t a = 0; a <= n; a++) {
				ncuts = 2; cuts[0] = a; cuts[1] = n - a;
				CASE("schunk codec=%s n=%zu cuts=%zu+%zu", c->name, n, a, n - a);
				do_chunked_encode(c, n, (int) (a & 1));
				seen(((u64) n << 20 | a) * 5 + ((u64) c->flag << 40));
				if (n <= three) for (size_t b = 0; a + b <= n; b++) {
					ncuts = 3; cuts[1] = b; cuts[2] = n - a - b;
					CASE("schunk codec=%s n=%zu cuts=%zu+%zu+%zu", c->name, n, a, b, n - a - b);
					do_chunked_encode(c, n, (int) (b & 1));
					seen(((u64) n << 30 | a << 15 | b) * 7 + ((u64) c->flag << 45));
				}
			}
		}
		// After 0..2 carried bytes, one chunk of every length:
		size_t L = scale == 0 ? 300 : scale == 1 ? 2600 : 6000;
		gen(ref_buf2, 8192, 0, &r);
		for (size_t n = 0; n <= L; n++) for (size_t a = 0; a < 3; a++) {
			ncuts = 3; cuts[0] = a; cuts[1] = n; cuts[2] = 1 + n % 5;
			size_t t = a + n + cuts[2];
			ref_encode(ref_buf2, t, ref_buf);
			CASE("schunk codec=%s cuts=%zu+%zu+%zu", c->name, a, n, cuts[2]);
			do_chunked_encode(c, t, (int) (n & 1));
			seen(((u64) n << 10 | a) * 11 + ((u64) c->flag << 41));
		}
		int reps = scale == 0 ? 300 : scale == 1 ? 8000 : 100000;
		for (int k = 0; k < reps; k++) {
			size_t n = (k & 3) ? rndn(&r, 600) : rndn(&r, 5000);
			int pat = rndn(&r, 3) ? 0 : (int) rndn(&r, NPATS);
			gen(ref_buf2, n, pat, &r);
			ref_encode(ref_buf2, n, ref_buf);
			random_cuts(n, &r, true);
			CASE("schunk codec=%s n=%zu pattern=%s case=%d", c->name, n, pat_name[pat], k);
			do_chunked_encode(c, n, k & 1);
			seen(hash_bytes(cuts, (size_t) ncuts * sizeof *cuts, n * 16 + (u64) c->flag));
			if (k < 3) sample("schunk codec=%s n=%zu cuts=%s", c->name, n, show_cuts());
		}
		// Some megabytes in one chunk, after and before short ones:
		for (int k = 0; k < 2; k++) {
			size_t n = 3200000 + rndn(&r, 3000);
			gen(ref_buf2, n, 0, &r);
			ref_encode(ref_buf2, n, ref_buf);
			ncuts = 3; cuts[0] = (size_t) k + 1; cuts[2] = rndn(&r, 5); cuts[1] = n - cuts[0] - cuts[2];
			CASE("schunk-long codec=%s cuts=%s", c->name, show_cuts());
			do_chunked_encode(c, n, k);
			seen((u64) n * 16 + (u64) c->flag);
		}
	}
}

// ------------------------------------------------------------------ C05/C06
static u64 dead_calls, err_calls;

// The text is in ref_buf2, n characters; cuts are given. Empty chunks at or
// after the end are not specified, so skip them.
static void
do_chunked_decode (const Codec *c, size_t n, int at, bool latch, Rng *r)
{
	struct base64_state st;
	RefDec d = { ACTIVE, 0, 0 };
	size_t pos = 0;
	u64 total = 0;

	(void) n;
	memset(&st, (int) (n + 5), sizeof st);
	base64_stream_decode_init(&st, c->flag);
	for (int i = 0; i < ncuts; i++) {
		size_t k = cuts[i], len = 0xDEADBEEF, rlen;
		if (k == 0 && d.st != ACTIVE) continue;
		size_t cap = 3 * (d.n + k) / 4 - 3 * d.n / 4;
		size_t soff = place(&SRC, k, at), doff = place(&DST, cap, at);
		bool dead = d.st == ENDED;
		memcpy(SRC.rw + soff, ref_buf2 + pos, k);
		paint(doff, cap);
		int ret = base64_stream_decode(&st, (char *) SRC.use + soff, k, (char *) DST.use + doff, &len);
		int rret = ref_dec(&d, ref_buf2 + pos, k, ref_buf, &rlen);
		dead_calls += dead;
		err_calls += !dead && !rret;
		if (ret != rret) {
			viol(dead ? "dec-latch" : rret ? "dec-chunk-reject" : "dec-chunk-accept", "chunk %d (%s) of %s: returned %d, must be %d; text %s",
				i, show(ref_buf2 + pos, k), show_cuts(), ret, rret, show(ref_buf2, n));
			return;
		}
		if (len != rlen) {
			viol(dead ? "dec-latch" : "dec-chunk-outlen", "chunk %d (%s) of %s: outlen is %zu, must be %zu; text %s", i, show(ref_buf2 + pos, k), show_cuts(), len, rlen, show(ref_buf2, n));
			return;
		}
		check_paint(doff, cap, dead ? 0 : ret ? rlen : cap, dead ? "dec-latch-write" : "dec-write");
		if (memcmp(DST.rw + doff, ref_buf, len)) {
			viol("dec-chunk-content", "chunk %d (%s) of %s: wrong byte at offset %zu of the chunk's output", i, show(ref_buf2 + pos, k), show_cuts(), first_diff(DST.rw + doff, ref_buf, len));
			return;
		}
		pos += k;
		total += len;
	}
	if (!latch) return;

	// Whatever comes now on a stream that ended must be refused.
	for (int i = 0; i < 5; i++) {
		static const char *const tries[] = { "=", "==", "A", "QQ==", "QUJD", "QUJDREVGR0hJSktMTU5PUFFSU1RVVldYWVphYmNkZWZnaGlqa2xtbm9wcXJzdHV2d3h5ejAxMjM0NTY3ODkrL0FCQ0RFRkdISUpLTE1OT1BRUlNUVVZXWFlaYWJjZGVmZ2hpamtsbW5vcHFyc3R1dnd4eXo=", "A===", "!", "\n", "QUI=", "UUE" };
		const char *t = tries[rndn(r, 11)];
		size_t k = strlen(t), len = 0xDEADBEEF, rlen, cap = 3 * (d.n + k) / 4;
		if (d.st == ENDED) cap = k;
		if (i == 0 && d.st == WANTPAD && rndn(r, 2)) { t = "="; k = 1; cap = 1; }
		bool dead = d.st == ENDED;
		size_t soff = place(&SRC, k, at), doff = place(&DST, cap, at);
		memcpy(SRC.rw + soff, t, k);
		paint(doff, cap);
		int ret = base64_stream_decode(&st, (char *) SRC.use + soff, k, (char *) DST.use + doff, &len);
		int rret = ref_dec(&d, (const u8 *) t, k, ref_buf, &rlen);
		dead_calls += dead;
		if (ret != rret || len != rlen) {
			viol(dead ? "dec-latch" : "dec-chunk-accept", "after text %s cut %s: extra chunk %d (%s) returned %d with outlen %zu, must be %d with %zu", show(ref_buf2, n), show_cuts(), i, t, ret, len, rret, rlen);
			return;
		}
		check_paint(doff, cap, dead ? 0 : ret ? rlen : cap, dead ? "dec-latch-write" : "dec-write");
	}
	// Fresh start on the same structure:
	size_t len = 0xDEADBEEF, soff = place(&SRC, 8, at), doff = place(&DST, 6, at);
	memcpy(SRC.rw + soff, "Zm9vYg==", 8);
	paint(doff, 6);
	base64_stream_decode_init(&st, c->flag);
	if (base64_stream_decode(&st, (char *) SRC.use + soff, 8, (char *) DST.use + doff, &len) != 1 || len != 4 || memcmp(DST.rw + doff, "foob", 4)) {
		viol("dec-reinit", "after text %s cut %s: stream does not work after a new init", show(ref_buf2, n), show_cuts());
	}
}

static size_t
make_text (u8 *t, size_t n, int kind, Rng *r)
{
	gen_text(t, n, r);
	if (kind == 0) {		// valid
		n &= ~(size_t) 3;
		if (n) { int p = (int) rndn(r, 3); if (p) t[n - 1] = '='; if (p == 2) t[n - 2] = '='; }
	}
	else if (kind == 1 && n) {	// '=' somewhere, often two in a row
		size_t p = rndn(r, n);
		t[p] = '=';
		if (rndn(r, 2) && p + 1 < n) t[p + 1] = '=';
	}
	else if (kind == 2 && n) {	// bad characters
		for (int k = (int) rndn(r, 3); k >= 0; k--) { size_t p = rndn(r, n); t[p] = rndn(r, 2) ? edgy[rndn(r, sizeof edgy)] : (u8) rnd(r); }
	}
	return n;			// kind 3: any length, no padding
}

static void
mode_dchunk (void)
{
	bool latch = false;
	FOR_CODECS {
		Rng r = rng_for(seed, 7, (u64) c->flag);
		// All short texts over three classes, all ways to cut them:
		static const u8 cls[] = { 'Q', '=', '?' };
		for (size_t n = 1; n <= (scale == 0 ? 5u : scale == 1 ? 7u : 9u); n++) {
			u64 tot = 1;
			for (size_t i = 0; i < n; i++) tot *= 3;
			for (u64 v = 0; v < tot; v++) {
				u64 w = v;
				for (size_t i = 0; i < n; i++) { ref_buf2[i] = cls[w % 3]; w /= 3; }
				for (u32 m = 0; m < 1u << (n - 1); m++) {
					size_t last = 0;
					ncuts = 0;
					for (size_t i = 0; i < n; i++) if (i + 1 == n || (m >> i & 1)) { cuts[ncuts++] = i + 1 - last; last = i + 1; }
					CASE("dchunk-short codec=%s text=%.*s mask=%u", c->name, (int) n, ref_buf2, m);
					do_chunked_decode(c, n, (int) (m & 1), latch, &r);
					seen((v << 20 | m << 4 | n) * 3 + ((u64) c->flag << 50));
				}
			}
		}
		// Two chunks, all cuts; a bad character or padding near the cut:
		size_t two = scale == 0 ? 60 : scale == 1 ? 150 : 400;
		for (size_t n = 1; n <= two; n++) for (int kind = 0; kind < 4; kind++) {
			if (scale == 0 && (n + (size_t) kind) % 3) continue;
			size_t m = make_text(ref_buf2, n, kind, &r);
			for (size_t a = 0; a <= m; a++) {
				u8 old = 0; size_t p = 0;
				if (kind == 2 && m) {
					p = (a + rndn(&r, 5) + m - 2) % m;
					old = ref_buf2[p];
					ref_buf2[p] = edgy[rndn(&r, sizeof edgy)];
				}
				ncuts = 2; cuts[0] = a; cuts[1] = m - a;
				CASE("dchunk codec=%s kind=%d cuts=%zu+%zu", c->name, kind, a, m - a);
				do_chunked_decode(c, m, (int) (a & 1), latch, &r);
				seen(((u64) n << 20 | a << 4 | (u64) kind) * 5 + ((u64) c->flag << 40));
				if (kind == 2 && m) ref_buf2[p] = old;
			}
		}
		// After 0..3 carried characters, one chunk of every length:
		size_t L = scale == 0 ? 250 : scale == 1 ? 1500 : 5000;
		for (size_t n = 0; n <= L; n++) for (size_t a = 0; a < 4; a++) {
			size_t t = a + n + 4;
			if (a == 0) gen_text(ref_buf2, t + 4, &r);
			ncuts = 3; cuts[0] = a; cuts[1] = n; cuts[2] = 4;
			CASE("dchunk codec=%s cuts=%zu+%zu+4", c->name, a, n);
			do_chunked_decode(c, t, (int) (n & 1), latch, &r);
			seen(((u64) n << 10 | a) * 13 + ((u64) c->flag << 41));
		}
		// After 0..3 carried characters, every byte value at every position of one chunk:
		size_t M = scale == 0 ? 132 : scale == 1 ? 170 : 350;
		for (size_t a = 0; a < 4; a++) {
			if (scale == 0 && a != 2) continue;
			gen_text(ref_buf2, M + a + 4, &r);
			for (size_t p = a; p < a + M; p++) {
				u8 old = ref_buf2[p];
				for (int v = 0; v < 256; v++) {
					// For long texts and emulators, thin out the plain letters:
					if (v < 128 && ref_inv[v] >= 0 && (v + p) % 8) continue;
					ref_buf2[p] = (u8) v;
					ncuts = 3; cuts[0] = a; cuts[1] = M; cuts[2] = 4;
					CASE("dchunk-byte codec=%s cuts=%zu+%zu+4 pos=%zu byte=0x%02x", c->name, a, M, p, v);
					do_chunked_decode(c, M + a + 4, (int) (p & 1), latch, &r);
					seen((p << 20 | (u64) v << 10 | a) * 17 + ((u64) c->flag << 42));
				}
				ref_buf2[p] = old;
			}
		}
		// Some megabytes in one chunk:
		for (int k = 0; k < 2; k++) {
			size_t n = 4270000 + rndn(&r, 3000);
			gen_text(ref_buf2, n, &r);
			if (k) ref_buf2[n - 1 - rndn(&r, 100)] = edgy[rndn(&r, sizeof edgy)];
			ncuts = 3; cuts[0] = (size_t) k * 2 + 1; cuts[2] = rndn(&r, 5); cuts[1] = n - cuts[0] - cuts[2];
			CASE("dchunk-long codec=%s cuts=%s", c->name, show_cuts());
			do_chunked_decode(c, n, k, latch, &r);
			seen((u64) n * 16 + (u64) c->flag);
		}
		int reps = scale == 0 ? 500 : scale == 1 ? 12000 : 150000;
		for (int k = 0; k < reps; k++) {
			size_t n = (k & 3) ? rndn(&r, 500) : rndn(&r, 5000);
			int kind = (int) rndn(&r, 4);
			n = make_text(ref_buf2, n, kind, &r);
			random_cuts(n, &r, true);
			CASE("dchunk codec=%s n=%zu kind=%d case=%d", c->name, n, kind, k);
			do_chunked_decode(c, n, k & 1, latch, &r);
			seen(hash_bytes(cuts, (size_t) ncuts * sizeof *cuts, n * 16 + (u64) c->flag));
			if (k < 3) sample("dchunk codec=%s n=%zu kind=%d cuts=%s", c->name, n, kind, show_cuts());
		}
	}
	printf("STAT\tcalls_with_error\t%llu\n", (unsigned long long) err_calls);
}

static void
mode_latch (void)
{
	FOR_CODECS {
		Rng r = rng_for(seed, 8, (u64) c->flag);
		// Error of every kind at every position of texts of many lengths:
		size_t top = scale == 0 ? 50 : scale == 1 ? 160 : 400;
		for (size_t n = 1; n <= top; n += scale == 0 ? 3 : 1) {
			gen_text(ref_buf2, n, &r);
			for (size_t p = 0; p < n; p++) for (int e = 0; e < 4; e++) {
				u8 old = ref_buf2[p];
				ref_buf2[p] = e < 2 ? '=' : edgy[rndn(&r, sizeof edgy)];
				ncuts = 0;
				if (e & 1) { cuts[ncuts++] = p + 1; if (n > p + 1) cuts[ncuts++] = n - p - 1; }
				else random_cuts(n, &r, false);
				CASE("latch codec=%s n=%zu pos=%zu kind=%d", c->name, n, p, e);
				do_chunked_decode(c, n, (int) (p & 1), true, &r);
				seen(((u64) n << 20 | p << 4 | (u64) e) * 3 + ((u64) c->flag << 40));
				ref_buf2[p] = old;
			}
		}
		int reps = scale == 0 ? 300 : scale == 1 ? 15000 : 150000;
		for (int k = 0; k < reps; k++) {
			size_t n = rndn(&r, (k & 3) ? 60 : 1500);
			int kind = (int) rndn(&r, 3);
			n = make_text(ref_buf2, n, kind, &r);
			random_cuts(n, &r, false);
			CASE("latch codec=%s n=%zu kind=%d case=%d", c->name, n, kind, k);
			do_chunked_decode(c, n, k & 1, true, &r);
			seen(hash_bytes(ref_buf2, n < 60 ? n : 60, n * 16 + (u64) c->flag));
			if (k < 2) sample("latch codec=%s n=%zu kind=%d cuts=%s, then 5 more chunks and a new init", c->name, n, kind, show_cuts());
		}
	}
	printf("STAT\tcalls_on_ended_streams\t%llu\nSTAT\tcalls_with_error\t%llu\n", (unsigned long long) dead_calls, (unsigned long long) err_calls);
}

// ------------------------------------------------------------------ C07
static void
mode_bounds (void)
{
	FOR_CODECS {
		Rng r = rng_for(seed, 9, (u64) c->flag);
		size_t L = scale == 0 ? 260 : scale == 1 ? 1600 : 5000;
		for (size_t n = 0; n <= L; n++) for (int pl = 0; pl < 4; pl++) {
			if (scale == 0 && pl != (int) (n & 3) && pl != (int) (n >> 2 & 3)) continue;
			size_t soff = place(&SRC, n, pl & 1);
			gen(SRC.rw + soff, n, 0, &r);
			CASE("bounds-enc codec=%s n=%zu placement=%d", c->name, n, pl);
			do_encode(c, pl >> 1 ^ (int) (n & 1), soff, n, place(&DST, ref_enclen(n), pl >> 1));
			seen(((u64) n << 2 | (u64) pl) * 3 + ((u64) c->flag << 40));
			// Valid text, text with an error, truncated text:
			for (int kind = 0; kind < 4; kind++) {
				size_t m = make_text(ref_buf2, n, kind, &r);
				soff = place(&SRC, m, pl & 1);
				memcpy(SRC.rw + soff, ref_buf2, m);
				CASE("bounds-dec codec=%s n=%zu kind=%d placement=%d", c->name, m, kind, pl);
				do_decode(c, (int) (n + (size_t) kind) & 1, soff, m, place(&DST, 3 * m / 4, pl >> 1));
				seen(hash_bytes(ref_buf2, m < 60 ? m : 60, (u64) (n * 16 + (u64) kind * 4 + (u64) pl)) + (u64) c->flag);
			}
		}
		// Every position of a bad character in texts around each threshold:
		for (size_t n = 8; n <= (scale == 0 ? 72u : 176u); n += 4) {
			size_t soff = place(&SRC, n, AT_END), doff = place(&DST, 3 * n / 4, AT_END);
			gen_text(SRC.rw + soff, n, &r);
			for (size_t p = 0; p < n; p++) for (int e = 0; e < 2; e++) {
				u8 old = SRC.rw[soff + p];
				SRC.rw[soff + p] = e ? '=' : '!';
				CASE("bounds-err codec=%s n=%zu pos=%zu", c->name, n, p);
				do_decode(c, e, soff, n, doff);
				seen(((u64) n << 20 | p << 4 | (u64) e) * 7 + ((u64) c->flag << 40));
				SRC.rw[soff + p] = old;
			}
		}
		// Chunked, all buffers of exactly the possible size for each call:
		int reps = scale == 0 ? 200 : scale == 1 ? 5000 : 60000;
		for (int k = 0; k < reps; k++) {
			size_t n = rndn(&r, 900);
			if (k & 1) {
				gen(ref_buf2, n, 0, &r);
				ref_encode(ref_buf2, n, ref_buf);
				random_cuts(n, &r, true);
				CASE("bounds-schunk codec=%s n=%zu case=%d cuts=%.100s", c->name, n, k, show_cuts());
				do_chunked_encode(c, n, k >> 1 & 1);
			}
			else {
				n = make_text(ref_buf2, n, (int) rndn(&r, 4), &r);
				random_cuts(n, &r, true);
				CASE("bounds-dchunk codec=%s n=%zu case=%d cuts=%.100s", c->name, n, k, show_cuts());
				do_chunked_decode(c, n, k >> 1 & 1, k & 4, &r);
			}
			seen(hash_bytes(cuts, (size_t) ncuts * sizeof *cuts, n * 16 + (u64) c->flag));
		}
		sample("bounds codec=%s: lengths 0..%zu with src and out against unmapped pages on either side, read-only src", c->name, L);
	}
}

// ------------------------------------------------------------------ C08
// Where uninitialized memory is tracked (MSan, or Memcheck with -DMEMCHECK),
// declare as such whatever results may not depend on.
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define UNDEF(p, n) __msan_poison((p), (n))
#define DEFD(p, n) __msan_check_mem_is_initialized((p), (n))
#define REDEF(p, n) __msan_unpoison((p), (n))
#endif
#endif
#ifdef MEMCHECK
#include <valgrind/memcheck.h>
static u64 n_undef_found;
#define UNDEF(p, n) (void) VALGRIND_MAKE_MEM_UNDEFINED((p), (n))
#define DEFD(p, n) do { if (VALGRIND_CHECK_MEM_IS_DEFINED((p), (n))) viol("uninit-result", "result depends on undefined memory"); } while (0)
#define REDEF(p, n) (void) VALGRIND_MAKE_MEM_DEFINED((p), (n))
#endif
#ifndef UNDEF
#define UNDEF(p, n) ((void) (p), (void) (n))
#define DEFD(p, n) ((void) (p), (void) (n))
#define REDEF(p, n) ((void) (p), (void) (n))
#endif

typedef struct { int ret; size_t len; u8 out[24000]; } Result;

// Other calls, which should be without effect on the calls of the case.
static Rng *hist_rng;
static u64 n_history, n_short;

static void
history (int flag)
{
	static const char text[] = "QUJDREVGR0hJSktMTU5PUFFSU1RVVldYWVphYmNkZWZnaGlqa2xtbm9wcXJzdHV2d3h5ejAxMjM0NTY3ODkrL0FCQ0RFRkdI"
		"QUJDREVGR0hJSktMTU5PUFFSU1RVVldYWVphYmNkZWZnaGlqa2xtbm9wcXJzdHV2d3h5ejAxMjM0NTY3ODkrL0FCQ0RFRkdI";
	struct base64_state h;
	size_t t;
	char tmp[400];
	int o = rndn(hist_rng, 2) ? flag : codecs[rndn(hist_rng, (u64) ncodecs)].flag;
	for (u64 i = rndn(hist_rng, 4) + 1; i; i--) {
		size_t n = rndn(hist_rng, rndn(hist_rng, 2) ? 12 : sizeof text);
		switch (rndn(hist_rng, 6)) {
		case 0:	base64_stream_encode_init(&h, o);
			base64_stream_encode(&h, tmp, 0, tmp, &t);
			base64_stream_encode(&h, text, n, tmp, &t);
			if (rndn(hist_rng, 2)) base64_stream_encode_final(&h, tmp, &t);
			break;
		case 1:	base64_decode("////????", 8, tmp, &t, o);
			break;
		case 2:	base64_stream_decode_init(&h, o);
			base64_stream_decode(&h, text, n, tmp, &t);
			break;
		case 3:	base64_stream_decode_init(&h, o);
			base64_stream_decode(&h, "QUJD=RUZHSElKS0xNTk9QUVJTVFVWV1hZWg==", rndn(hist_rng, 38), tmp, &t);
			break;
		case 4:	base64_decode(text, n, tmp, &t, o);
			break;
		case 5:	base64_encode(text, n, tmp, &t, o);
			break;
		}
	}
	n_history++;
}

static u64
burst_calls (void)
{
#ifdef MEMCHECK
	return 3000;
#else
	return (scale == 0 ? 70000 : scale == 1 ? 300000 : 1 << 24);
#endif
}

static void
short_calls (int flag, u64 i)
{
	static struct base64_state e, d;
	static u64 ne, nd;
	static const char txt[] = "QUJDREVG";
	char tmp[64];
	size_t t = 99;
	int ret;
	switch (i % 4) {
	case 0:	base64_encode("ABCDEF", 6, tmp, &t, flag);
		if (t != 8 || memcmp(tmp, txt, 8)) viol("det-model", "encoding six bytes differs from the model after %llu calls", (unsigned long long) i);
		break;
	case 1:	ret = base64_decode(txt, 8, tmp, &t, flag);
		if (ret != 1 || t != 6 || memcmp(tmp, "ABCDEF", 6)) viol("det-model", "decoding eight characters differs from the model after %llu calls", (unsigned long long) i);
		break;
	case 2: if (i == 2) { base64_stream_encode_init(&e, flag); ne = 0; }
		base64_stream_encode(&e, "ABCDEF" + ne % 6, 1, tmp, &t);
		if (t != (ne % 3 == 2 ? 2u : 1u) || memcmp(tmp, txt + (ne % 6) / 3 * 4 + ne % 3, t)) viol("det-model", "chunk %llu of a stream is encoded differently", (unsigned long long) ne);
		ne++;
		break;
	case 3: if (i == 3) { base64_stream_decode_init(&d, flag); nd = 0; }
		ret = base64_stream_decode(&d, txt + nd % 8, 1, tmp, &t);
		if (ret != 1 || t != (nd % 4 ? 1u : 0u) || (t && tmp[0] != "ABCDEF"[nd % 8 / 4 * 3 + nd % 4 - 1])) viol("det-model", "chunk %llu of a stream is decoded differently", (unsigned long long) nd);
		nd++;
		break;
	}
	n_evals++;
	n_short++;
}

// Run one case in a particular environment: kind 0 one-shot encode, 1 one-shot
// decode, 2 chunked encode, 3 chunked decode, with the cuts as set up.
static void
run_case (int kind, int flag, const u8 *in, size_t n, char *dst, size_t dstcap, struct base64_state *st, Result *res)
{
	size_t len = (size_t) rand(), t, pos = 0;
	if (kind >= 2) len = 0;
	else UNDEF(&len, sizeof len);
	UNDEF(dst, dstcap + 64);
	UNDEF(in - 64, 64);
	UNDEF(in + n, 64);
	UNDEF(st, sizeof *st);
	res->ret = 1;
	res->len = 0;
	scramble_regs(rand());
	if (kind == 0) {
		base64_encode((const char *) in, n, dst, &len, flag);
	}
	else if (kind == 1) {
		res->ret = base64_decode((const char *) in, n, dst, &len, flag);
	}
	else if (kind == 2) {
		base64_stream_encode_init(st, flag);
		for (int i = 0; i < ncuts; i++) {
			t = (size_t) rand();
			UNDEF(&t, sizeof t);
			if (hist_rng) history(flag);
			scramble_regs(rand());
			base64_stream_encode(st, (const char *) in + pos, cuts[i], dst + len, &t);
			DEFD(&t, sizeof t);
			len += t; pos += cuts[i];
		}
		t = (size_t) rand();
		UNDEF(&t, sizeof t);
		if (hist_rng) history(flag);
		scramble_regs(rand());
		base64_stream_encode_final(st, dst + len, &t);
		len += t;
	}
	else {
		base64_stream_decode_init(st, flag);
		res->ret = 0;
		for (int i = 0; i < ncuts; i++) {
			int r1;
			if (cuts[i] == 0) continue;
			t = (size_t) rand();
			UNDEF(&t, sizeof t);
			if (hist_rng) history(flag);
			scramble_regs(rand());
			r1 = base64_stream_decode(st, (const char *) in + pos, cuts[i], dst + len, &t);
			DEFD(&r1, sizeof r1);
			res->ret = res->ret * 3 + r1;
			res->ret %= 1000003;
			len += t; pos += cuts[i];
		}
	}
	DEFD(&len, sizeof len);
	DEFD(&res->ret, sizeof res->ret);
	REDEF(in - 64, 64);
	REDEF(in + n, 64);
	res->len = len;
	if (len > dstcap) { viol("det-outlen", "outlen %zu exceeds any possible output", len); res->len = 0; return; }
	DEFD(dst, len);
	REDEF(dst, dstcap + 64);
	memcpy(res->out, dst, len);
}

static void
mode_det (void)
{
	static Result base, other;
	static u8 in[12000];
	FOR_CODECS {
		Rng r = rng_for(seed, 10, (u64) c->flag);
		int reps = scale == 0 ? 250 : scale == 1 ? 5000 : 50000;
		for (int k = 0; k < reps; k++) {
			int kind = k & 3;
			size_t n = rndn(&r, (k >> 2 & 3) ? 500 : 7000);
			if (kind & 1) n = make_text(in, n, (int) rndn(&r, 4), &r);
			else gen(in, n, (int) rndn(&r, NPATS), &r);
			random_cuts(n, &r, !(kind & 1));
			if (k == reps / 2) {
				// A long history of short calls
				u64 m = burst_calls();
				CASE("det codec=%s: %llu earlier calls", c->name, (unsigned long long) m);
				for (u64 i = 0; i < m; i++) short_calls(c->flag, i);
			}
			CASE("det codec=%s kind=%d n=%zu case=%d", c->name, kind, n, k);
			seen(hash_bytes(in, n < 64 ? n : 64, n * 64 + (u64) kind) + (u64) c->flag);
			size_t cap = (kind & 1) ? n : ref_enclen(n) + 8;
			struct { u8 pad[64]; struct base64_state st; u8 pad2[64]; } holder;
			memset(&holder, 0, sizeof holder);
			memset(SRC.rw, 0, n + 4096); memset(DST.rw, 0, cap + 4096);
			memcpy(SRC.rw + 64, in, n);
			run_case(kind, c->flag, SRC.use + 64, n, (char *) DST.use, cap, &holder.st, &base);
			int variants = scale == 0 ? 2 : 4;
			for (int v = 0; v < variants; v++) {
				size_t sa = 64 + rndn(&r, 130), da = rndn(&r, 130);
				// Random or telling surroundings: alphabet, '=', garbage
				int fill = (int) rndn(&r, 4);
				for (size_t i = 0; i < n + 512; i++) SRC.rw[i] = fill == 0 ? (u8) rnd(&r) : fill == 1 ? '=' : fill == 2 ? (u8) ref_alpha[i & 63] : 0xFF;
				fill = (int) rndn(&r, 4);
				for (size_t i = 0; i < cap + 512; i++) DST.rw[i] = fill == 0 ? (u8) rnd(&r) : fill == 1 ? '=' : fill == 2 ? 0xFF : 'A';
				memcpy(SRC.rw + sa, in, n);
				for (size_t i = 0; i < sizeof holder; i++) ((u8 *) &holder)[i] = (u8) rnd(&r);
				// Some history, of any kind, before the calls and between them:
				hist_rng = rndn(&r, 3) ? &r : NULL;
				if (hist_rng && rndn(&r, 2)) history(c->flag);
				run_case(kind, c->flag, SRC.use + sa, n, (char *) DST.use + da, cap, &holder.st, &other);
				hist_rng = NULL;
				n_evals++;
				if (other.ret != base.ret || other.len != base.len) {
					viol("det-result", "result differs in another environment: ret %d/%d, outlen %zu/%zu, alignments %zu,%zu", base.ret, other.ret, base.len, other.len, sa & 63, da & 63);
				}
				else if (memcmp(base.out, other.out, base.len)) {
					viol("det-output", "output differs in another environment at offset %zu, alignments %zu,%zu", first_diff(base.out, other.out, base.len), sa & 63, da & 63);
				}
			}
			// And against the model for the first environment:
			size_t rl;
			if (kind == 1) {
				int rr = ref_decode(in, n, ref_buf, &rl);
				if (rr != base.ret || (rr && (rl != base.len || memcmp(ref_buf, base.out, rl)))) viol("det-model", "decoding differs from the model");
			}
			else if (!(kind & 1)) {
				rl = ref_encode(in, n, ref_buf);
				if (rl != base.len || memcmp(ref_buf, base.out, rl)) viol("det-model", "encoding differs from the model");
			}
		}
		sample("det codec=%s: %d cases, each in several environments (buffer contents, alignment, registers, history)", c->name, reps);
	}
	printf("STAT\thistories_before_or_between_calls\t%llu\nSTAT\tcalls_in_long_histories\t%llu\n", (unsigned long long) n_history, (unsigned long long) n_short);
}

// ------------------------------------------------------------------ C09/C15
typedef struct {
	bool used, enc, present;
	const Codec *c;
	struct base64_state st;
	RefDec d;
	u64 total;		// input bytes so far (encoding)
	u8 tail[2];		// and the last few of them
	u8 phase;
} Stream;

static u64 n_absent, n_forced, n_switch;

static void
stream_begin (Stream *s, const Codec *c, bool present, bool enc, Rng *r)
{
	memset(&s->st, (int) rnd(r), sizeof s->st);
	s->used = true; s->c = c; s->present = present; s->enc = enc;
	s->d = (RefDec) { ACTIVE, 0, 0 };
	s->total = 0; s->phase = 0;
	if (enc) base64_stream_encode_init(&s->st, c->flag);
	else base64_stream_decode_init(&s->st, c->flag);
}

// One call on the stream; the model predicts the output of each call up to
// what the encoder may hold back, so the encoder's output is checked by total.
typedef struct { u8 *exp; size_t explen, got; } EncLog;

static void
stream_enc_call (Stream *s, const u8 *in, size_t n, u8 *out)
{
	size_t len = 0xDEADBEEF;
	static __thread u8 buf[4200], exp[5700];
	base64_stream_encode(&s->st, (const char *) in, n, (char *) out, &len);
	if (!s->present) {
		n_absent++;
		if (len != 0) viol("force-absent-enc", "encoding with the missing codec %s gives outlen %zu", s->c->name, len);
		return;
	}
	// This library emits every character as soon as it is determined.
	// Here, only the sequence of characters is compared:
	memcpy(buf, s->tail, s->phase);
	memcpy(buf + s->phase, in, n);
	size_t m = s->phase + n, full = m / 3 * 4 + (m % 3 == 1 ? 1 : m % 3 == 2 ? 2 : 0), skip = s->phase;
	ref_encode(buf, m, exp);
	if (len != full - skip) {
		viol("stream-enc-outlen", "stream with codec %s: outlen is %zu, must be %zu", s->c->name, len, full - skip);
	}
	else if (memcmp(out, exp + skip, len)) {
		viol("stream-enc-content", "stream with codec %s: wrong output", s->c->name);
	}
	s->phase = (u8) (m % 3);
	memcpy(s->tail, buf + m - s->phase, s->phase);
	s->total += n;
}

static void
stream_enc_end (Stream *s, u8 *out)
{
	size_t len = 0xDEADBEEF;
	u8 exp[8];
	base64_stream_encode_final(&s->st, (char *) out, &len);
	size_t want = 0;
	if (s->present) {
		if (s->phase) { ref_encode(s->tail, s->phase, exp); want = 4 - s->phase; }
		if (len != want || (want && memcmp(out, exp + s->phase, len))) {
			viol("stream-enc-final", "stream with codec %s: wrong trailer, %zu bytes, must be %zu", s->c->name, len, want);
		}
	}
	else if (len != 0) {
		viol("force-absent-enc", "finishing with the missing codec %s gives outlen %zu", s->c->name, len);
	}
	s->used = false;
}

static void
stream_dec_call (Stream *s, const u8 *in, size_t n, u8 *out)
{
	size_t len = 0xDEADBEEF, rlen;
	static __thread u8 exp[4200];
	if (n == 0 && s->d.st != ACTIVE) return;
	int ret = base64_stream_decode(&s->st, (const char *) in, n, (char *) out, &len);
	if (!s->present) {
		n_absent++;
		if (ret != -1) viol("force-absent-dec", "decoding with the missing codec %s returns %d", s->c->name, ret);
		if (len != 0) viol("force-absent-outlen", "decoding with the missing codec %s gives outlen %zu", s->c->name, len);
		return;
	}
	int rret = ref_dec(&s->d, in, n, exp, &rlen);
	if (ret != rret || len != rlen || memcmp(exp, out, len)) {
		viol("stream-dec", "stream with codec %s: returned %d, outlen %zu; must be %d, %zu; chunk %s", s->c->name, ret, len, rret, rlen, show(in, n));
	}
	if (ret == 0 && rret == 0 && len == rlen) return;
}

#define NSTREAMS 12
// ops over several streams; with "absent", codecs that are not in the build too
static void
mix_streams (int reps, bool absent, u64 salt)
{
	static Stream st[NSTREAMS];
	static u8 out[8192], in[4200];
	static const Codec *usable[NCODECS]; static bool pres[NCODECS];
	int nu = 0;
	const Codec *last = NULL;
	Rng r = rng_for(seed, 11, salt);

	memset(st, 0, sizeof st);
	for (int i = 0; i < NCODECS; i++) {
		bool p = all_codecs[i].flag == 0 || codec_present(all_codecs[i].flag);
		if (p && !cpu_can(all_codecs[i].flag)) continue;
		if (!p && !absent) continue;
		usable[nu] = &all_codecs[i]; pres[nu++] = p;
	}
	for (int k = 0; k < reps; k++) {
		Stream *s = &st[rndn(&r, NSTREAMS)];
		int what = (int) rndn(&r, 12);
		CASE("mix op=%d what=%d stream=%d", k, what, (int) (s - st));
		if (what == 0 || !s->used) {
			int i = rndn(&r, 4) ? (int) rndn(&r, (u64) nu) : 0;
			stream_begin(s, usable[i], pres[i], (bool) rndn(&r, 2), &r);
			if (usable[i]->flag) n_forced++;
			if (last != usable[i]) n_switch++;
			last = usable[i];
			seen(mix(((u64) (usable[i] - all_codecs) << 8 | (u64) (s - st)) + (u64) k * 4096));
			continue;
		}
		if (what == 1) {	// One-shot call with some codec in between
			int i = rndn(&r, 3) ? (int) rndn(&r, (u64) nu) : 0;
			size_t n = rndn(&r, 300), len = 0xDEADBEEF, rl;
			if (rndn(&r, 2)) {
				gen(in, n, 0, &r);
				base64_encode((char *) in, n, (char *) out, &len, usable[i]->flag);
				rl = ref_encode(in, n, ref_buf);
				if (!pres[i]) {
					n_absent++;
					if (len != 0) viol("force-absent-enc", "base64_encode with the missing codec %s gives outlen %zu", usable[i]->name, len);
				}
				else if (len != rl || memcmp(out, ref_buf, rl)) viol("oneshot-enc", "base64_encode with codec %s: outlen %zu, must be %zu, or wrong content", usable[i]->name, len, rl);
			}
			else {
				n = make_text(in, n, (int) rndn(&r, 4), &r);
				int ret = base64_decode((char *) in, n, (char *) out, &len, usable[i]->flag);
				int rret = ref_decode(in, n, ref_buf, &rl);
				if (!pres[i]) {
					n_absent++;
					if (ret != -1 || len != 0) viol("force-absent-dec", "base64_decode with the missing codec %s returns %d, outlen %zu", usable[i]->name, ret, len);
				}
				else if (ret != rret || (ret == 1 && (len != rl || memcmp(out, ref_buf, rl)))) viol("oneshot-dec", "base64_decode with codec %s returns %d, must be %d, or wrong output", usable[i]->name, ret, rret);
			}
			last = usable[i];
			continue;
		}
		if (what == 2) {	// Duplicate the stream: both go on independently
			Stream *t = &st[rndn(&r, NSTREAMS)];
			if (t != s) { memcpy(t, s, sizeof *t); memset(&t->st, 0, sizeof t->st); t->st = s->st; }
			continue;
		}
		size_t n = rndn(&r, 6) ? rndn(&r, 140) : rndn(&r, 1500);
		if (rndn(&r, 3) == 0) n = rndn(&r, 5);
		if (s->enc) {
			if (what == 3) { stream_enc_end(s, out); continue; }
			gen(in, n, 0, &r);
			stream_enc_call(s, in, n, out);
		}
		else {
			n = make_text(in, n, rndn(&r, 6) ? 3 : (int) rndn(&r, 3), &r);
			stream_dec_call(s, in, n, out);
		}
		seen(hash_bytes(in, n < 40 ? n : 40, (u64) (s - st)) + (u64) what);
	}
}

static const char *have_list;
static void
mode_force (void)
{
	// Which codecs must be there is known from how the library was built.
	for (int i = 1; i < NCODECS; i++) {
		const Codec *c = &all_codecs[i];
		char o[64];
		for (int api = 0; api < 2; api++) for (int k = 0; k < 3; k++) {
			size_t len = 12345;
			struct base64_state st;
			const char *txt = k == 0 ? "" : k == 1 ? "Zm9v" : "!!";
			bool must = have_list && strstr(have_list, c->name) && ({ const char *p = strstr(have_list, c->name); char e = p[strlen(c->name)]; e == ',' || e == 0; });
			if (!cpu_can(c->flag) && must) continue;
			CASE("force codec=%s api=%d text=%s expected=%d", c->name, api, txt, must);
			memset(&st, k * 85, sizeof st);
			int ret;
			memset(o, '#', sizeof o);
			if (api == 0) {
				base64_stream_decode_init(&st, c->flag);
				ret = base64_stream_decode(&st, txt, strlen(txt), o, &len);
			}
			else ret = base64_decode(txt, strlen(txt), o, &len, c->flag);
			if (have_list) {
				if (!must && (ret != -1 || len != 0)) viol("force-absent-dec", "codec is not in the build, but decoding returns %d, outlen %zu", ret, len);
				if (must && ret != (k == 2 ? 0 : 1)) viol("force-present-dec", "codec is in the build, but decoding '%s' returns %d", txt, ret);
				if (must && k == 1 && (len != 3 || memcmp(o, "foo", 3))) viol("force-present-dec", "codec is in the build, but decoding '%s' gives %zu bytes", txt, len);
			}
			for (int k2 = 0; k2 < 2; k2++) {
				len = 12345;
				size_t t = 12345;
				memset(o, '#', sizeof o);
				if (k2) {
					base64_stream_encode_init(&st, c->flag);
					base64_stream_encode(&st, "foob", 4, o, &len);
					if (len < 32) base64_stream_encode_final(&st, o + len, &t);
					len += t;
				}
				else base64_encode("foob", 4, o, &len, c->flag);
				if (have_list && !must && len != 0) viol("force-absent-enc", "codec is not in the build, but encoding gives %zu bytes", len);
				if (have_list && !must && o[0] != '#') viol("force-absent-enc", "codec is not in the build, but encoding writes to the output");
				if (have_list && must && (len != 8 || memcmp(o, "Zm9vYg==", 8))) viol("force-present-enc", "codec is in the build, but encoding gives %zu bytes", len);
			}
			// And the default still works:
			len = 12345;
			base64_encode("foob", 4, o, &len, 0);
			if (len != 8 || memcmp(o, "Zm9vYg==", 8)) viol("force-leak", "after forcing this codec, default encoding gives %zu bytes", len);
			len = 12345;
			if (base64_decode("Zm9vYg==", 8, o, &len, 0) != 1 || len != 4 || memcmp(o, "foob", 4)) viol("force-leak", "after forcing this codec, default decoding fails");
			seen(((u64) i << 8 | (u64) api << 4 | (u64) k) * 77);
		}
	}
	for (int i = 0; i < (scale == 2 ? 20 : 4); i++) mix_streams(scale == 0 ? 3000 : 60000, true, (u64) i);
	printf("STAT\tcalls_on_missing_codecs\t%llu\nSTAT\tforced_streams\t%llu\nSTAT\tcodec_switches\t%llu\n", (unsigned long long) n_absent, (unsigned long long) n_forced, (unsigned long long) n_switch);
	sample("force: each flag probed in 12 ways, build has [%s]", have_list ? have_list : "?");
	sample("force: %d operations on %d interleaved streams, codecs both present and missing", scale == 0 ? 3000 : 60000, NSTREAMS);
}

// Operations from a signal handler that interrupts others at random points.
static volatile u64 n_sig;
static volatile int sig_busy;
static void
on_intr (int sig)
{
	static Stream st[4];
	static Rng r;
	static u8 in[1600], out[4200];
	(void) sig;
	if (sig_busy) return;
	sig_busy = 1;
	if (!r.s) r = rng_for(seed, 12, 1);
	n_sig++;
	Stream *s = &st[rndn(&r, 4)];
	if (!s->used || rndn(&r, 10) == 0) {
		const Codec *c = &codecs[rndn(&r, (u64) ncodecs)];
		stream_begin(s, c, true, (bool) rndn(&r, 2), &r);
	}
	size_t n = rndn(&r, 4) ? rndn(&r, 100) : rndn(&r, 1000);
	if (s->enc) { gen(in, n, 0, &r); stream_enc_call(s, in, n, out); }
	else { n = make_text(in, n, rndn(&r, 6) ? 3 : 2, &r); stream_dec_call(s, in, n, out); }
	sig_busy = 0;
}

static void
mode_inter (void)
{
	int rounds = scale == 2 ? 10 : 2;
	for (int i = 0; i < rounds; i++) mix_streams(scale == 0 ? 4000 : 80000, false, 100 + (u64) i);
	sample("inter: %d operations on %d streams, with copies of states", scale == 0 ? 4000 : 80000, NSTREAMS);
	if (scale == 0) return;
	// Signals. The handler has no code in common with the interrupted one
	// but the library (the reporting functions are not reached).
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_handler = on_intr;
	sa.sa_flags = SA_RESTART;
	sigaction(SIGALRM, &sa, NULL);
	struct itimerval it = { { 0, 40 }, { 0, 40 } };
	setitimer(ITIMER_REAL, &it, NULL);
	static u8 big[200000], text[300000], out[300000];
	Rng r = rng_for(seed, 13, 2);
	u64 reps = scale == 2 ? 30000 : 2500;
	for (u64 k = 0; k < reps; k++) {
		const Codec *c = &codecs[rndn(&r, (u64) ncodecs)];
		size_t n = rndn(&r, 30000), len = 0;
		gen(big, n, 0, &r);
		CASE("inter-signal codec=%s n=%zu case=%llu", c->name, n, (unsigned long long) k);
		size_t m = ref_encode(big, n, text);
		u64 s0 = n_sig;
		base64_encode((char *) big, n, (char *) out, &len, c->flag);
		if (len != m || memcmp(out, text, m)) { sig_busy = 1; viol("signal-enc", "encoding interrupted by a signal handler that uses the library gives a wrong result"); sig_busy = 0; }
		int ret = base64_decode((char *) text, m, (char *) out, &len, c->flag);
		if (ret != 1 || len != n || memcmp(out, big, n)) { sig_busy = 1; viol("signal-dec", "decoding interrupted by a signal handler that uses the library gives a wrong result"); sig_busy = 0; }
		if (n_sig != s0) seen(mix(k) + (u64) c->flag);
	}
	memset(&it, 0, sizeof it);
	setitimer(ITIMER_REAL, &it, NULL);
	printf("STAT\tsignals_during_calls\t%llu\n", (unsigned long long) n_sig);
}

// ------------------------------------------------------------------ C16
// A trace of API calls that depends on the seed only; its digest must be the
// same for all codecs and builds.
static int only_phase = -1;
static void
mode_digest (void)
{
	static u8 in[70000], out[100000];
	const int phases = scale == 2 ? 400 : scale == 1 ? 48 : 48;
	FOR_CODECS {
		for (int ph = 0; ph < phases; ph++) {
			Rng r = rng_for(seed, 14, (u64) ph);
			memset(in, 0, sizeof in);
			u64 h = (u64) ph, calls = 0;
			if (only_phase >= 0 && ph != only_phase) continue;
			for (int k = 0; k < 60; k++) {
				struct base64_state st;
				size_t n = rndn(&r, 5) ? rndn(&r, 420) : rndn(&r, k == 0 && ph % 8 == 0 ? 60000 : 3500), pos = 0, len = 0;
				int kind = (int) rndn(&r, 8);
				CASE("digest codec=%s phase=%d case=%d kind=%d n=%zu", c->name, ph, k, kind, n);
				memset(&st, 0, sizeof st);
				if (kind < 3) gen(in, n, (int) rndn(&r, NPATS), &r);
				else n = make_text(in, n, (int) rndn(&r, 4), &r);
				random_cuts(n, &r, kind < 3);
				if (kind == 0) {
					base64_encode((char *) in, n, (char *) out, &len, c->flag);
					h = hash_bytes(out, len <= sizeof out ? len : 0, h + len);
					calls++;
				}
				else if (kind == 3) {
					int ret = base64_decode((char *) in, n, (char *) out, &len, c->flag);
					h = hash_bytes(out, len <= sizeof out ? len : 0, h + (u64) (ret + 2) * 1000003 + len);
					calls++;
				}
				else if (kind < 3) {
					base64_stream_encode_init(&st, c->flag);
					for (int i = 0; i < ncuts; i++) {
						base64_stream_encode(&st, (char *) in + pos, cuts[i], (char *) out, &len);
						h = hash_bytes(out, len <= sizeof out ? len : 0, h + len);
						pos += cuts[i];
						calls++;
					}
					base64_stream_encode_final(&st, (char *) out, &len);
					h = hash_bytes(out, len <= sizeof out ? len : 0, h + len);
				}
				else {
					base64_stream_decode_init(&st, c->flag);
					for (int i = 0; i < ncuts; i++) {
						if (cuts[i] == 0) continue;
						int ret = base64_stream_decode(&st, (char *) in + pos, cuts[i], (char *) out, &len);
						h = hash_bytes(out, len <= sizeof out ? len : 0, h + (u64) (ret + 2) * 1000003 + len);
						pos += cuts[i];
						calls++;
					}
				}
			}
			printf("DIGEST\t%d\t%s\t%016llx\t%llu\n", ph, c->name, (unsigned long long) h, (unsigned long long) calls);
			seen(h + (u64) c->flag);
		}
	}
	// Systematic traces: every byte at every place of two rounds of any codec
	// (valid or not), in one call and in a stream; all groups of 16 bits.
	FOR_CODECS {
		for (int ph = 10000; ph < 10017; ph++) {
			if (only_phase >= 0 && ph != only_phase) continue;
			Rng r = rng_for(seed, 14, (u64) ph);
			u64 h = (u64) ph, calls = 0;
			size_t len = 0, n;
			if (ph < 10008) {
				n = make_text(in, 176, 0, &r) & ~(size_t) 3;
				for (int b = (ph - 10000) * 32; b < (ph - 10000) * 32 + 32; b++) for (size_t pos = 0; pos < 132 && pos < n; pos++) {
					u8 was = in[pos];
					struct base64_state st;
					CASE("digest codec=%s phase=%d byte=%d pos=%zu", c->name, ph, b, pos);
					in[pos] = (u8) b;
					int ret = base64_decode((char *) in, n, (char *) out, &len, c->flag);
					h = hash_bytes(out, len <= sizeof out ? len : 0, h + (u64) (ret + 2) * 1000003 + len);
					calls++;
					memset(&st, 0, sizeof st);
					base64_stream_decode_init(&st, c->flag);
					ret = base64_stream_decode(&st, (char *) in, n - 2, (char *) out, &len);
					h = hash_bytes(out, len <= sizeof out ? len : 0, h + (u64) (ret + 2) * 1000003 + len);
					ret = base64_stream_decode(&st, (char *) in + n - 2, 2, (char *) out, &len);
					h = hash_bytes(out, len <= sizeof out ? len : 0, h + (u64) (ret + 2) * 1000003 + len);
					calls += 2;
					in[pos] = was;
				}
			}
			else if (ph < 10016) {
				for (n = 0; n < 132; n++) in[n] = (u8) rnd(&r);
				for (int b = (ph - 10008) * 32; b < (ph - 10008) * 32 + 32; b++) for (size_t pos = 0; pos < 100; pos++) {
					u8 was = in[pos];
					CASE("digest codec=%s phase=%d byte=%d pos=%zu", c->name, ph, b, pos);
					in[pos] = (u8) b;
					base64_encode((char *) in, 129 + (size_t) b % 4, (char *) out, &len, c->flag);
					h = hash_bytes(out, len <= sizeof out ? len : 0, h + len);
					calls++;
					in[pos] = was;
				}
			}
			else for (u32 v = 0; v < 65536; v += 20000) {		// and the lanes move
				CASE("digest codec=%s phase=%d group=%u", c->name, ph, v);
				for (n = 0; n < 60000; n += 3) { u32 w = v + (u32) n / 3; in[n] = (u8) (w >> 8); in[n + 1] = (u8) w; in[n + 2] = (u8) (w * 37 >> 3); }
				base64_encode((char *) in, n, (char *) out, &len, c->flag);
				h = hash_bytes(out, len <= sizeof out ? len : 0, h + len);
				static u8 back[70000];
				size_t m = 0;
				int ret = len <= 80000 ? base64_decode((char *) out, len, (char *) back, &m, c->flag) : 7;
				h = hash_bytes(back, m <= sizeof back ? m : 0, h + (u64) (ret + 2) * 1000003 + m);
				calls += 2;
			}
			printf("DIGEST\t%d\t%s\t%016llx\t%llu\n", ph, c->name, (unsigned long long) h, (unsigned long long) calls);
			seen(h + (u64) c->flag);
		}
	}
	sample("digest: %d random traces of 60 cases and 17 systematic ones for each of %d codecs", phases, ncodecs);
}

// ------------------------------------------------------------------ C14
static void
mode_regs (void)
{
	u64 calls = 0;
	FOR_CODECS {
		Rng r = rng_for(seed, 15, (u64) c->flag);
		int reps = scale == 0 ? 700 : scale == 1 ? 6000 : 100000;
		for (int k = 0; k < reps; k++) {
			size_t n = k < 400 ? (size_t) k : rndn(&r, (k & 7) ? 1200 : 9000), len = 0, t = 0;
			const char *src = (const char *) SRC.use;
			char *dst = (char *) DST.use;
			struct base64_state st;
			const char *bad;
			u64 s = rnd(&r);
			CASE("regs codec=%s n=%zu case=%d", c->name, n, k);
			seen(((u64) n << 8) * 3 + (u64) c->flag);
			gen(SRC.rw, n, 0, &r);
			if ((bad = call_regs((void *) base64_encode, s, (uintptr_t) src, n, (uintptr_t) dst, (uintptr_t) &len, (uintptr_t) c->flag))) viol("regs", "base64_encode changes %s", bad);
			if (len != ref_enclen(n)) viol("regs-result", "base64_encode: outlen %zu", len);
			base64_stream_encode_init(&st, c->flag);
			if ((bad = call_regs((void *) base64_stream_encode_init, s, (uintptr_t) &st, (uintptr_t) c->flag, 0, 0, 0))) viol("regs", "base64_stream_encode_init changes %s", bad);
			if ((bad = call_regs((void *) base64_stream_encode, s + 1, (uintptr_t) &st, (uintptr_t) src, n, (uintptr_t) dst, (uintptr_t) &len))) viol("regs", "base64_stream_encode changes %s", bad);
			if ((bad = call_regs((void *) base64_stream_encode_final, s + 2, (uintptr_t) &st, (uintptr_t) dst, (uintptr_t) &t, 0, 0))) viol("regs", "base64_stream_encode_final changes %s", bad);
			n = make_text(ref_buf2, n, k & 1 ? 0 : (int) rndn(&r, 4), &r);
			memcpy(SRC.rw, ref_buf2, n);
			if ((bad = call_regs((void *) base64_decode, s + 3, (uintptr_t) src, n, (uintptr_t) dst, (uintptr_t) &len, (uintptr_t) c->flag))) viol("regs", "base64_decode changes %s", bad);
			if ((bad = call_regs((void *) base64_stream_decode_init, s, (uintptr_t) &st, (uintptr_t) c->flag, 0, 0, 0))) viol("regs", "base64_stream_decode_init changes %s", bad);
			if ((bad = call_regs((void *) base64_stream_decode, s + 4, (uintptr_t) &st, (uintptr_t) src, n, (uintptr_t) dst, (uintptr_t) &len))) viol("regs", "base64_stream_decode changes %s", bad);
			calls += 7;
		}
		sample("regs codec=%s: %d rounds of 7 calls with random contents of %s", c->name, reps, regs_checked);
	}
	printf("STAT\tcalls_with_register_check\t%llu\n", (unsigned long long) calls);
}

#include "pure.h"

int
main (int argc, char **argv)
{
	const char *mode = NULL, *filter = NULL;
	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], NULL, 0);
		else if (!strcmp(argv[i], "--scale")) scale = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--codec")) filter = argv[++i];
		else if (!strcmp(argv[i], "--have")) have_list = argv[++i];
		else if (!strcmp(argv[i], "--phase")) only_phase = atoi(argv[++i]);
		else mode = argv[i];
	}
	common_init();
	ref_init();
	srand((unsigned) seed + 1);
	maxlen = (size_t) 5 << 20;
	SRC = arena_new(maxlen * 2, true, "(next to or in the input buffer)");
	DST = arena_new(maxlen * 2, false, "(next to or in the output buffer)");
	ref_buf = malloc(maxlen * 2);
	ref_buf2 = malloc(maxlen * 2);
	snprintf(cur_what, sizeof cur_what, "probing the codecs");
	if (mode && !strcmp(mode, "pure")) pure_first();
	find_codecs(filter);
	if (ncodecs == 0) { printf("NOCODEC\n"); finish(0); }
	static const struct { const char *n; void (*f) (void); } modes[] = {
		{ "enc", mode_enc }, { "enc24", mode_enc24 }, { "dec", mode_dec }, { "dec24", mode_dec24 }, { "lang", mode_lang },
		{ "schunk", mode_schunk }, { "dchunk", mode_dchunk }, { "latch", mode_latch }, { "bounds", mode_bounds }, { "det", mode_det },
		{ "force", mode_force }, { "inter", mode_inter }, { "digest", mode_digest }, { "regs", mode_regs }, { "pure", mode_pure },
	};
	for (size_t i = 0; i < sizeof modes / sizeof *modes; i++) {
		if (mode && !strcmp(mode, modes[i].n)) { modes[i].f(); finish(0); }
	}
	fprintf(stderr, "unknown mode\n");
	return 3;
}
