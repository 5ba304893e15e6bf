// C25: how many instructions calls take. They are counted by single-stepping
// the call (mode "step"), or by callgrind (mode "dump", for longer inputs).
// Reports lines COST codec op n count; with callgrind the counts are in its
// dumps, which bear the same names.
#define NO_CRASH_HANDLER
#include "common.h"
#include <ucontext.h>
#include <valgrind/callgrind.h>

static u64 seed = 1;
static int scale;
static volatile long count;
static bool dump;

static void
on_trap (int sig, siginfo_t *si, void *uc)
{
	(void) sig; (void) si; (void) uc;
	count++;
}

#if !defined(__x86_64__) && !defined(__i386__)
#define TRAP(ins)
#elif defined(__x86_64__)
#define TRAP(ins) __asm__ volatile ("lea -128(%%rsp), %%rsp\n pushfq\n " ins " (%%rsp)\n popfq\n lea 128(%%rsp), %%rsp\n" ::: "memory", "cc")
#else
#define TRAP(ins) __asm__ volatile ("pushfl\n " ins " (%%esp)\n popfl\n" ::: "memory", "cc")
#endif
#ifdef __x86_64__
#define ON "orq $0x100,"
#define OFF "andq $~0x100,"
#else
#define ON "orl $0x100,"
#define OFF "andl $~0x100,"
#endif

static u8 *data, *text, *out;
static size_t cap;

static const char *const ops[] = { "enc", "dec", "enc-stream-1", "enc-stream-2", "dec-stream-1", "dec-stream-2", "dec-stream-3", "enc-chunks", "dec-chunks", "dec-bad", "enc-tiny", "dec-tiny" };
enum { NOPS = 12 };

#define COUNT(x) do { if (dump) { CALLGRIND_ZERO_STATS; CALLGRIND_TOGGLE_COLLECT; x; CALLGRIND_TOGGLE_COLLECT; } else { count = 0; TRAP(ON); x; TRAP(OFF); } } while (0)

// n: bytes of data, a multiple of 12.
static long
measure (const Codec *c, int op, size_t n)
{
	struct base64_state st;
	char *d = (char *) data, *t = (char *) text, *o = (char *) out;
	size_t m = n / 3 * 4, len = 0, k, ph;
	int ret = 1;
	u8 keep = text[m - 2];
	Rng r = rng_for(seed, 3, n);
	static size_t cut[100000];
	int ncut = 0;
	if (op == 7 || op == 8) for (size_t at = 0, all = op == 7 ? n : m; at < all; ) {
		k = 3000 + rndn(&r, 3000);
		if (k > all - at) k = all - at;
		cut[ncut++] = k; at += k;
	}
	base64_stream_encode_init(&st, c->flag);
	base64_encode(d, 100, o, &len, c->flag);
	base64_decode(t, 100, o, &len, c->flag);
	len = 0;
	switch (op) {
	case 0: COUNT(base64_encode(d, n, o, &len, c->flag)); ret = len == m; break;
	case 1: COUNT(ret = base64_decode(t, m, o, &len, c->flag)); break;
	case 2: case 3:
		ph = (size_t) op - 1;
		base64_stream_encode(&st, d, ph, o, &k);
		COUNT(base64_stream_encode(&st, d + ph, n - ph, o + k, &len));
		break;
	case 4: case 5: case 6:
		ph = (size_t) op - 3;
		base64_stream_decode_init(&st, c->flag);
		base64_stream_decode(&st, t, ph, o, &k);
		COUNT(ret = base64_stream_decode(&st, t + ph, m - ph, o + k, &len));
		break;
	case 7:
		COUNT(for (int i = 0; i < ncut; i++) { base64_stream_encode(&st, d, cut[i], o, &len); d += cut[i]; o += len; });
		break;
	case 8:
		base64_stream_decode_init(&st, c->flag);
		COUNT(for (int i = 0; i < ncut; i++) { ret &= base64_stream_decode(&st, t, cut[i], o, &len); t += cut[i]; o += len; });
		break;
	case 9:
		text[m - 2] = '!';
		COUNT(ret = base64_decode(t, m, o, &len, c->flag));
		ret = ret == 0;
		text[m - 2] = keep;
		break;
	case 10:
		COUNT(for (size_t i = 0; i < n; i++) { base64_stream_encode(&st, d, 1, o, &len); d++; o += len; });
		break;
	case 11:
		base64_stream_decode_init(&st, c->flag);
		COUNT(for (size_t i = 0; i < m; i++) { ret &= base64_stream_decode(&st, t, 1, o, &len); t++; o += len; });
		break;
	}
	if (ret != 1) printf("NOTE\t%s of %zu bytes by %s gives a wrong result\n", ops[op], n, c->name);
	return count;
}

int
main (int argc, char **argv)
{
	const char *filter = "all", *one_op = NULL;
	size_t one_n = 0;
	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], NULL, 0);
		else if (!strcmp(argv[i], "--scale")) scale = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--codec")) filter = argv[++i];
		else if (!strcmp(argv[i], "--have")) i++;
		else if (!strcmp(argv[i], "--op")) one_op = argv[++i];
		else if (!strcmp(argv[i], "--n")) one_n = strtoul(argv[++i], NULL, 0);
		else dump = !strcmp(argv[i], "dump");
	}
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_trap;
	sa.sa_flags = SA_SIGINFO | SA_NODEFER;
	if (!dump) sigaction(SIGTRAP, &sa, NULL);
	cap = dump ? 8000000 : one_op ? 20000 : 100000;
	data = malloc(cap); text = malloc(cap * 2); out = malloc(cap * 2);
	Rng r = rng_for(seed, 2, 0);
	gen(data, cap, 0, &r);
	ref_init();
	ref_encode(data, cap / 3 * 3, text);
	find_codecs(filter);
	if (one_op) {
		for (int op = 0; op < NOPS; op++) if (!strcmp(ops[op], one_op)) measure(&codecs[0], op, one_n);
		return ncodecs != 1;
	}
	u64 evals = 0;
	for (const Codec *c = codecs; c < codecs + ncodecs; c++) {
		for (int op = 0; op < NOPS; op++) {
			bool slow = c->flag == BASE64_FORCE_PLAIN || op >= 10;
			size_t ns[3] = { slow ? 1200 : 3000, slow ? 2400 : 6000, slow ? 4800 : 12000 };
			if (dump) { ns[0] = 48000; ns[1] = 480000; ns[2] = scale ? 6000000 : 1440000; if (op >= 10) { ns[0] /= 4; ns[1] /= 4; ns[2] /= 4; } }
			for (int k = 0; k < 3; k++) {
				long v = measure(c, op, ns[k]);
				char name[200];
				snprintf(name, sizeof name, "COST %s %s %zu", c->name, ops[op], ns[k]);
				if (dump) CALLGRIND_DUMP_STATS_AT(name);
				else printf("%s %ld\n", name, v);
				evals++;
			}
		}
	}
	printf("STAT\tevaluations\t%llu\nSTAT\tdistinct\t%llu\nSTAT\tcalls_counted\t%llu\nEND\t0\n", (unsigned long long) evals, (unsigned long long) evals, (unsigned long long) evals);
	return 0;
}
