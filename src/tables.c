// The lookup tables against the alphabet. Either those in the library that
// this is linked with, or (GEN_DEC, GEN_ENC, BASE64_LITTLE_ENDIAN) those in
// given header files.
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#ifdef GEN_DEC
#include GEN_DEC
#include GEN_ENC
#define LE BASE64_LITTLE_ENDIAN
#define W
#else
#define LE (__BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__)
#define W __attribute__((weak))
extern const uint8_t base64_table_enc_6bit[] W;
extern const uint8_t base64_table_dec_8bit[] W;
extern const uint32_t base64_table_dec_32bit_d0[] W;
extern const uint32_t base64_table_dec_32bit_d1[] W;
extern const uint32_t base64_table_dec_32bit_d2[] W;
extern const uint32_t base64_table_dec_32bit_d3[] W;
extern const uint16_t base64_table_enc_12bit[] W;
#endif
static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int nviol;
static long n;
static const char *where = "";
#define VIOL(...) do { printf("VIOL\ttable\t%s: ", where); printf(__VA_ARGS__); printf("\n"); if (++nviol > 8) goto done; } while (0)

int
main (int argc, char **argv)
{
	if (argc > 1) where = argv[1];
	int val[256];
	long tables = 0;
	memset(val, -1, sizeof val);
	for (int i = 0; i < 64; i++) val[(uint8_t) al[i]] = i;
#ifndef GEN_DEC
	if (base64_table_enc_6bit) { tables++; for (int i = 0; i < 64; i++, n++) if (base64_table_enc_6bit[i] != (uint8_t) al[i]) VIOL("enc_6bit[%d] is %d", i, base64_table_enc_6bit[i]); }
	if (base64_table_dec_8bit) {
		tables++;
		for (int i = 0; i < 256; i++, n++) {
			uint8_t x = base64_table_dec_8bit[i];
			if (val[i] >= 0 && x != val[i]) VIOL("dec_8bit[%d] is %d, must be %d", i, x, val[i]);
			if (val[i] < 0 && x < 64) VIOL("dec_8bit[%d] is %d, but that is no valid character", i, x);
			if (i != '=' && val[i] < 0 && x == base64_table_dec_8bit['=']) VIOL("dec_8bit[%d] is %d, as for '='", i, x);
		}
	}
#endif
	const uint32_t *d[4] = { base64_table_dec_32bit_d0, base64_table_dec_32bit_d1, base64_table_dec_32bit_d2, base64_table_dec_32bit_d3 };
	for (int p = 0; p < 4; p++) {
		if (!d[p]) continue;
		tables++;
		for (int i = 0; i < 256; i++, n++) {
			if (val[i] < 0) {
				// The decoder tests the highest bit, or in big-endian the lowest.
				if (!(d[p][i] & (LE ? 0x80000000u : 1))) VIOL("dec_32bit_d%d[%d] is %#x, which does not mark an invalid character", p, i, d[p][i]);
				continue;
			}
			uint32_t t = (uint32_t) val[i] << (18 - 6 * p), b0 = t >> 16, b1 = t >> 8 & 255, b2 = t & 255;
			uint32_t w = LE ? b0 | b1 << 8 | b2 << 16 : b0 << 24 | b1 << 16 | b2 << 8;
			if (d[p][i] != w) VIOL("dec_32bit_d%d[%d] is %#x, must be %#x", p, i, d[p][i], w);
		}
	}
	if (base64_table_enc_12bit) {
		tables++;
		for (int i = 0; i < 4096; i++, n++) {
			uint16_t hi = (uint8_t) al[i >> 6], lo = (uint8_t) al[i & 63], w = (uint16_t) (LE ? hi | lo << 8 : hi << 8 | lo);
			if (base64_table_enc_12bit[i] != w) VIOL("enc_12bit[%d] is %#x, must be %#x", i, base64_table_enc_12bit[i], w);
		}
#ifdef GEN_DEC
		if (sizeof base64_table_enc_12bit != 8192 || sizeof base64_table_dec_32bit_d0 != 1024) VIOL("wrong sizes");
#endif
	}
done:
	printf("STAT\tevaluations\t%ld\nSTAT\tdistinct\t%ld\nSTAT\ttables_compared\t%ld\nSTAT\ttable_entries_compared\t%ld\nSAMPLE\t%s (%s-endian): %ld tables with %ld entries\nEND\t%d\n", n, n, tables, n, where, LE ? "little" : "big", tables, n, nviol > 0);
	return nviol > 0;
}
