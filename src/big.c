// Inputs beyond 2^31 and 2^32 bytes (beyond 2^30 and 2^31 on 32-bit platforms).
// The input is one block, mapped again and again; its length has no factor in
// common with the powers of two, so that data read at a truncated offset is
// other data. The output is real memory, and all of it is compared.
#include "common.h"
#ifdef _OPENMP
#include <omp.h>
#define set_team(n) omp_set_num_threads(n)
#else
#define set_team(n)
#endif

static u64 seed = 1;
static int scale;

#define KB 331
#define PI ((size_t) 3 * 4096 * KB)	// a block of data
#define PO ((size_t) 4 * 4096 * KB)	// its text

static u8 *block, *btext;	// the blocks
static u8 *in_;			// the mapped input
static size_t in_cap, in_period;
static int in_fd;
static u8 *out;
static size_t out_cap;
static u64 bytes_compared, bytes_processed, n_far;

static void
die (const char *s) { printf("NOTE\t%s: %s\n", s, strerror(errno)); finish(3); }

static int
mkfd (const u8 *p, size_t n)
{
	int fd = memfd_create("block", 0);
	if (fd < 0 || ftruncate(fd, (off_t) n)) die("memfd");
	for (size_t o = 0; o < n; ) { ssize_t k = pwrite(fd, p + o, n - o, (off_t) o); if (k <= 0) die("write"); o += (size_t) k; }
	return fd;
}

static bool
map_input (size_t cap, const u8 *blk, size_t period)
{
	if (in_) munmap(in_, in_cap);
	cap = (cap + 2 * 4096) & ~(size_t) 4095;
	in_ = mmap(NULL, cap, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (in_ == MAP_FAILED) { in_ = NULL; return false; }
	if (in_fd) close(in_fd);
	in_fd = mkfd(blk, period);
	in_cap = cap; in_period = period;
	for (size_t o = 0; o < cap; o += period) {
		size_t n = cap - o < period ? cap - o : period;
		if (mmap(in_ + o, n, PROT_READ, MAP_SHARED | MAP_FIXED, in_fd, 0) == MAP_FAILED) die("mmap");
	}
	return true;
}
// Change some bytes of the input: put private pages there, or take them back.
static void
poke (size_t at, const char *s, size_t n)
{
	size_t a = at & ~(size_t) 4095, e = (at + n + 4095) & ~(size_t) 4095;
	u8 *t = malloc(e - a);
	memcpy(t, in_ + a, e - a);
	if (mmap(in_ + a, e - a, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) die("mmap");
	memcpy(in_ + a, t, e - a);
	memcpy(in_ + at, s, n);
	free(t);
}
static void
unpoke (size_t at, size_t n)
{
	size_t a = at & ~(size_t) 4095, e = (at + n + 4095) & ~(size_t) 4095;
	for (; a < e; a += 4096) {
		if (mmap(in_ + a, 4096, PROT_READ, MAP_SHARED | MAP_FIXED, in_fd, (off_t) (a % in_period)) == MAP_FAILED) die("mmap");
	}
}

static void
clear_out (void)
{
	if (madvise(out, out_cap, MADV_DONTNEED)) die("madvise");
}

// The first n bytes of the output are those of the block, repeated.
static bool
check_full (const u8 *blk, size_t period, size_t n, const char *key)
{
	for (size_t o = 0; o < n; o += period) {
		size_t k = n - o < period ? n - o : period;
		if (memcmp(out + o, blk, k)) { viol(key, "wrong output at offset %zu of %zu", o + first_diff(out + o, blk, k), n); return false; }
		bytes_compared += k;
	}
	return true;
}
// Nothing at and after n, as far as the memory was clear.
static void
check_after (size_t n, const char *key)
{
	for (size_t i = n; i < n + 200 && i < out_cap; i++) if (out[i]) { viol(key, "writes at offset %zu, after the %zu bytes of output", i, n); return; }
}

static void
enc (const Codec *c, size_t n, int team, bool stream)
{
	size_t len = 777, m = ref_enclen(n), k = n / 3 * 4;
	u8 tail[8];
	Rng r = rng_for(seed, n, (u64) c->flag);
	if (n > in_cap || m > out_cap) { printf("NOTE\t%zu bytes do not fit\n", n); finish(3); }
	clear_out();
	set_team(team);
	if (!stream) {
		CASE("big encode codec=%s n=%zu team=%d", c->name, n, team);
		base64_encode((char *) in_, n, (char *) out, &len, c->flag);
		if (len != m) { viol("big-enc-outlen", "outlen %zu, must be %zu", len, m); return; }
	}
	else {
		struct base64_state st;
		size_t at = 0, o = 0;
		base64_stream_encode_init(&st, c->flag);
		for (int call = 0; at < n; call++) {
			size_t ch = call == 0 ? rndn(&r, 6) : call == 1 ? n - at - (n - at > 5000 ? 1 + rndn(&r, 4000) : 0) : 1 + rndn(&r, n - at);
			if (ch > n - at) ch = n - at;
			size_t want = (at + ch) / 3 * 4 + ((at + ch) % 3 ? (at + ch) % 3 : 0) - (at / 3 * 4 + at % 3);
			CASE("big stream encode codec=%s n=%zu, call %d with %zu bytes at %zu", c->name, n, call, ch, at);
			base64_stream_encode(&st, (char *) in_ + at, ch, (char *) out + o, &len);
			if (len != want) { viol("big-enc-outlen", "outlen %zu, must be %zu", len, want); return; }
			at += ch; o += len;
		}
		base64_stream_encode_final(&st, (char *) out + o, &len);
		if (o + len != m) { viol("big-enc-outlen", "total %zu, must be %zu", o + len, m); return; }
	}
	bytes_processed += n; n_far++;
	if (!check_full(btext, PO, k, "big-enc")) return;
	if (m > k) {
		ref_encode(in_ + n / 3 * 3, n % 3, tail);
		if (memcmp(out + k, tail, 4)) { viol("big-enc", "wrong output in the last four bytes: %.4s", out + k); return; }
	}
	check_after(m, "big-enc-write");
	seen(hash_bytes(&n, sizeof n, (u64) c->flag + (u64) team * 64 + stream * 4096));
}

// Decode m characters, of which those at "at" are replaced; the result is
// known from where the first offending character is.
// err: its position, or SIZE_MAX if the text is valid, with outn bytes of data.
static void
dec (const Codec *c, size_t m, int team, size_t at, const char *s, int want, size_t outn, bool stream, bool full)
{
	size_t len = 777, sl = strlen(s);
	if (m > in_cap || m / 4 * 3 > out_cap) { printf("NOTE\t%zu characters do not fit\n", m); finish(3); }
	if (sl) poke(at, s, sl);
	if (full) clear_out();
	set_team(team);
	if (!stream) {
		CASE("big decode codec=%s m=%zu team=%d, '%s' at %zu", c->name, m, team, s, at);
		int ret = base64_decode((char *) in_, m, (char *) out, &len, c->flag);
		if (ret != want) { viol("big-dec-ret", "returns %d, must be %d", ret, want); goto end; }
		if (want == 1 && len != outn) { viol("big-dec-outlen", "outlen %zu, must be %zu", len, outn); goto end; }
	}
	else {
		struct base64_state st;
		Rng r = rng_for(seed, m, (u64) c->flag);
		size_t p = 0, o = 0;
		int ret = 1;
		base64_stream_decode_init(&st, c->flag);
		for (int call = 0; p < m && ret == 1; call++) {
			size_t ch = call == 0 ? 1 + rndn(&r, 6) : call == 1 ? m - p - (m - p > 5000 ? 1 + rndn(&r, 4000) : 0) : 1 + rndn(&r, m - p);
			CASE("big stream decode codec=%s m=%zu, call %d with %zu characters at %zu, '%s' at %zu", c->name, m, call, ch, p, s, at);
			ret = base64_stream_decode(&st, (char *) in_ + p, ch, (char *) out + o, &len);
			p += ch; o += len;
			if (want == 1 && ret != 1) { viol("big-dec-ret", "returns %d, must be 1", ret); goto end; }
		}
		if (ret != want) { viol("big-dec-ret", "returns %d in the end, must be %d", ret, want); goto end; }
		if (o != outn) { viol("big-dec-outlen", "total %zu, must be %zu", o, outn); goto end; }
		len = o;
	}
	bytes_processed += m; n_far++;
	if (full && (want == 1 || stream)) {
		if (!check_full(block, PI, outn, "big-dec")) goto end;
		check_after(outn, "big-dec-write");
	}
	seen(hash_bytes(s, sl, hash_bytes(&m, sizeof m, at) + (u64) c->flag + (u64) team * 64 + stream * 4096));
end:
	if (sl) unpoke(at, sl);
}

int
main (int argc, char **argv)
{
	const char *mode = "", *codec = "all";
	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], NULL, 0);
		else if (!strcmp(argv[i], "--scale")) scale = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--codec")) codec = argv[++i];
		else if (!strcmp(argv[i], "--have")) i++;
		else mode = argv[i];
	}
	common_init();
	hang_ticks = 40;
	ref_init();
	find_codecs(codec);
	const bool b64 = sizeof(size_t) == 8;
	const size_t G31 = (size_t) 1 << 31, G30 = (size_t) 1 << 30, G32 = b64 ? (size_t) 1 << (b64 ? 32 : 0) : 0;
	block = malloc(PI); btext = malloc(PO);
	Rng r = rng_for(seed, 90, 0);
	for (size_t i = 0; i + 8 <= PI; i += 8) { u64 x = rnd(&r); memcpy(block + i, &x, 8); }
	ref_encode(block, PI, btext);

	bool is_enc = !strncmp(mode, "enc", 3), stream = strstr(mode, "stream") != NULL, omp = strstr(mode, "omp") != NULL;
	int few = scale == 0;
	static const int teams[] = { 3, 8, 1, 2, 5 };
	if (is_enc) {
		size_t big = b64 ? G32 + 19 + rndn(&r, 3000) : G31 - (G31 >> 2) - 100000 + rndn(&r, 3000);
		out_cap = (ref_enclen(big) + 8192) & ~(size_t) 4095;
		out = mmap(NULL, out_cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (out == MAP_FAILED) die("mmap");
		madvise(out, out_cap, MADV_HUGEPAGE);
		if (!map_input(big + 64, block, PI)) die("mmap");
		for (int i = 0; i < ncodecs; i++) for (int t = 0; t < (omp ? few ? 2 : 5 : 1); t++) {
			const Codec *c = &codecs[i];
			enc(c, big, teams[t], stream);
			size_t l[] = { b64 ? G32 - 1 : G30 + 7, b64 ? G31 + 1 : G30 - 1, b64 ? G30 * 3 + 2 : G30 + G30 / 3 + 5, b64 ? G32 : G30, b64 ? G31 : G30 + 1, b64 ? G32 + 1 : G30 + G30 / 4 + 1, b64 ? G30 * 3 : G30 + 2, b64 ? G30 * 3 + 1 : G30 - 2 };
			if (few && t == 0) enc(c, l[(seed + (u64) i) % 8], teams[t], stream);
			if (!few) for (int k = 0; k < 8; k++) enc(c, l[k], teams[t], stream);
		}
		sample("%s: up to %zu bytes", mode, big);
	}
	else {
		size_t big = b64 ? G32 + 16 + rndn(&r, 700) * 4 : G31 + 65536 + rndn(&r, 700) * 4;
		// And a text of more than 2^32 bytes of data
		const size_t wide = b64 ? (G32 / 3 + 16 + rndn(&r, 700)) * 4 : 0, most = wide > big ? wide : big;
		out_cap = (most / 4 * 3 + 8192) & ~(size_t) 4095;
		out = mmap(NULL, out_cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (out == MAP_FAILED) die("mmap");
		madvise(out, out_cap, MADV_HUGEPAGE);
		if (!map_input(most + 64, btext, PO)) {
			// Not so much address space: a bit less than that
			munmap(out, out_cap);
			big = G30 + G30 / 2 + rndn(&r, 700) * 4;
			out_cap = (big / 4 * 3 + 8192) & ~(size_t) 4095;
			out = mmap(NULL, out_cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (out == MAP_FAILED || !map_input(big + 64, btext, PO)) die("mmap");
			printf("NOTE\taddress space for %zu characters only\n", big);
		}
		for (int i = 0; i < ncodecs; i++) for (int t = 0; t < (omp ? few ? 2 : 5 : 1); t++) {
			const Codec *c = &codecs[i];
			int tm = teams[t];
			size_t N = big / 4 * 3;
			dec(c, big, tm, 0, "", 1, N, stream, true);
			// Padding at the far end, and just before it
			dec(c, big, tm, big - 1, "=", 1, N - 1, stream, false);
			dec(c, big, tm, big - 2, "==", 1, N - 2, stream, false);
			if (wide && (!few || (i == 0 && t == 0))) {
				const size_t W = wide / 4 * 3;
				dec(c, wide, tm, 0, "", 1, W, stream, true);
				dec(c, wide, tm, wide - 2, "==", 1, W - 2, stream, false);
				dec(c, wide, tm, wide - 5, "*", 0, W - 4, stream, false);
			}
			if (few && i > 0) {
				// A few of these for every codec
				static const char bads[] = "!=\n";
				char b[2] = { bads[rndn(&r, 3)], 0 };
				size_t pos[] = { big - 3, b64 ? G32 : G31, b64 ? G31 + 1 : G30 + 1, b64 ? G32 + 5 : G31 + 5, big - 30 };
				size_t p = pos[rndn(&r, 5)];
				if (p < big) dec(c, big, tm, p, b, 0, p / 4 * 3 + (p % 4 ? p % 4 - 1 : 0), stream, stream);
				continue;
			}
			size_t pos[] = { big - 3, big - 4, big - 5, b64 ? G32 : G31, b64 ? G32 - 1 : G31 - 1, b64 ? G31 : G30, b64 ? G31 - 1 : G30 - 1, b64 ? G32 + 6 : G31 + 6, big - 70, b64 ? G30 * 3 : G30 + 3 };
			for (int k = 0; k < 10; k++) {
				size_t p = pos[k];
				if (p >= big || (few && (k + (int) seed + t) % 3)) continue;
				size_t known = p / 4 * 3 + (p % 4 ? p % 4 - 1 : 0);
				dec(c, big, tm, p, k % 2 ? "!" : "\xff", 0, known, stream, stream && k == 0);
				// Padding there is well-placed if in the third or fourth place, but what follows is not
				dec(c, big, tm, p, p % 4 == 2 ? "==" : "=", 0, known, stream, false);
			}
			if (!stream) {
				dec(c, big - 1, tm, 0, "", 0, 0, false, false);
				dec(c, big - 2, tm, 0, "", 0, 0, false, false);
				dec(c, big - 3, tm, 0, "", 0, 0, false, false);
				dec(c, b64 ? G32 : G31, tm, 0, "", 1, (b64 ? G32 : G31) / 4 * 3, false, false);
				if (big >= (b64 ? G32 : G31) + 4) dec(c, (b64 ? G32 : G31) + 4, tm, 0, "", 1, (b64 ? G32 : G31) / 4 * 3 + 3, false, true);
				dec(c, b64 ? G31 : G30, tm, 0, "", 1, (b64 ? G31 : G30) / 4 * 3, false, false);
			}
		}
		sample("%s: up to %zu characters", mode, most);
	}
	printf("STAT\tmegabytes_processed\t%llu\nSTAT\tmegabytes_of_output_compared\t%llu\nSTAT\tcalls_beyond_the_small_range\t%llu\n", (unsigned long long) (bytes_processed >> 20), (unsigned long long) (bytes_compared >> 20), (unsigned long long) n_far);
	finish(n_viol ? 1 : 0);
}
