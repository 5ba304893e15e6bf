// OpenMP builds. Modes:
//   res     results with any number of threads, with the real libgomp
//   sched   (-DSHIM) an own OpenMP runtime that gives any team size and runs
//           the threads in any order, with a monitor of what each one writes
//   race    (-DSHIM, TSan) the same runtime with real concurrency
#include "common.h"
#include <pthread.h>
#include <sched.h>

static u64 seed = 1;
static int scale;

// ------------------------------------------------------------ the runtime
#ifdef SHIM
typedef struct Team {
	int n, single, singles[64];
	pthread_barrier_t bar;
	struct Loop { bool init; long next, end, incr, chunk; } loop[64];
	void (*fn) (void *);
	void *data;
	// serialized execution:
	bool serial;
	int order[128], turn;
	pthread_mutex_t mu, loopmu;
	pthread_cond_t cv;
	u64 phase;
} Team;
typedef struct { Team *t; int id, nsingle, nloop; } Me;
static __thread Me me;
static Team solo;
static int want_team = 4;
static bool want_serial;
static u32 perm_seed;
static u64 n_teams, n_barriers, n_turns;
static void seg_begin (int id);
static void seg_end (int id);

static void
set_order (Team *t)
{
	Rng r = { perm_seed + t->phase * 7919 };
	for (int i = 0; i < t->n; i++) t->order[i] = i;
	for (int i = t->n - 1; i > 0; i--) { int j = (int) rndn(&r, (u64) i + 1), x = t->order[i]; t->order[i] = t->order[j]; t->order[j] = x; }
}

// Serialized: the threads run one after the other, from barrier to barrier,
// each time in another order.
static void
turn_wait (Team *t, int id)
{
	pthread_mutex_lock(&t->mu);
	while (t->order[t->turn] != id) pthread_cond_wait(&t->cv, &t->mu);
	pthread_mutex_unlock(&t->mu);
	n_turns++;
	seg_begin(id);
}
static void
turn_done (Team *t, int id)
{
	seg_end(id);
	pthread_mutex_lock(&t->mu);
	if (++t->turn == t->n) { t->turn = 0; t->phase++; set_order(t); }
	pthread_cond_broadcast(&t->cv);
	pthread_mutex_unlock(&t->mu);
}

static void
jitter (Team *t)
{
	// Without synchronization that TSan would see:
	Rng r = { perm_seed * 31 + t->phase * 7 + (u64) me.id * 1009 };
	u64 k = rndn(&r, 4) ? rndn(&r, 3000) : rndn(&r, 60000);
	for (u64 i = 0; i < k; i++) __asm__ volatile ("" ::: "memory");
	if (rndn(&r, 6) == 0) sched_yield();
}

typedef struct { Team *t; int id; } Start;
static void *
team_thread (void *a)
{
	Start *s = a;
	me = (Me) { s->t, s->id, 0, 0 };
	if (s->t->serial) turn_wait(s->t, me.id); else jitter(s->t);
	s->t->fn(s->t->data);
	if (s->t->serial) turn_done(s->t, me.id);
	return NULL;
}

void
GOMP_parallel (void (*fn) (void *), void *data, unsigned num, unsigned flags)
{
	(void) flags;
	Team t;
	pthread_t th[128];
	Start st[128];
	Me saved = me;
	memset(&t, 0, sizeof t);
	t.n = num ? (int) num < want_team ? (int) num : want_team : want_team;
	if (saved.t && saved.t->n > 1) t.n = 1;		// nested
	t.fn = fn; t.data = data;
	t.serial = want_serial;
	pthread_barrier_init(&t.bar, NULL, (unsigned) t.n);
	pthread_mutex_init(&t.mu, NULL);
	pthread_mutex_init(&t.loopmu, NULL);
	pthread_cond_init(&t.cv, NULL);
	set_order(&t);
	for (int i = 1; i < t.n; i++) { st[i] = (Start) { &t, i }; if (pthread_create(&th[i], NULL, team_thread, &st[i])) { printf("NOTE\tno thread\n"); finish(3); } }
	st[0] = (Start) { &t, 0 };
	team_thread(&st[0]);
	for (int i = 1; i < t.n; i++) pthread_join(th[i], NULL);
	me = saved;
	__atomic_fetch_add(&n_teams, 1, __ATOMIC_RELAXED);
}
void
GOMP_barrier (void)
{
	if (!me.t || me.t->n == 1) return;
	if (me.id == 0) __atomic_fetch_add(&n_barriers, 1, __ATOMIC_RELAXED);
	if (me.t->serial) {
		Team *t = me.t;
		// All must be here before the next phase begins, which the turns
		// imply: the last one's end of turn starts the phase.
		u64 ph = t->phase;
		turn_done(t, me.id);
		pthread_mutex_lock(&t->mu);
		while (t->phase == ph) pthread_cond_wait(&t->cv, &t->mu);
		pthread_mutex_unlock(&t->mu);
		turn_wait(t, me.id);
		return;
	}
	pthread_barrier_wait(&me.t->bar);
	jitter(me.t);
}
bool
GOMP_single_start (void)
{
	if (!me.t) return true;
	int k = me.nsingle++ & 63, z = 0;
	return __atomic_compare_exchange_n(&me.t->singles[k], &z, 1, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED);
}
int omp_get_num_threads (void) { return me.t ? me.t->n : 1; }
int omp_get_thread_num (void) { return me.t ? me.id : 0; }
int omp_get_max_threads (void) { return want_team; }
int omp_get_num_procs (void) { return want_team; }
int omp_in_parallel (void) { return me.t && me.t->n > 1; }
int omp_get_thread_limit (void) { return 128; }
int omp_get_dynamic (void) { return 0; }
void omp_set_num_threads (int n) { (void) n; }
void omp_set_dynamic (int n) { (void) n; }
int omp_get_level (void) { return me.t != NULL; }
double omp_get_wtime (void) { return 0; }
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_start (void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end (void) { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start (void **p) { (void) p; pthread_mutex_lock(&crit); }
void GOMP_critical_name_end (void **p) { (void) p; pthread_mutex_unlock(&crit); }
void GOMP_atomic_start (void) { pthread_mutex_lock(&crit); }
void GOMP_atomic_end (void) { pthread_mutex_unlock(&crit); }
bool GOMP_cancel (int w, bool d) { (void) w; (void) d; return false; }
bool GOMP_cancellation_point (int w) { (void) w; return false; }
bool GOMP_barrier_cancel (void) { GOMP_barrier(); return false; }
static bool
loop_next (long *is, long *ie)
{
	if (!me.t) return false;
	struct Loop *l = &me.t->loop[me.nloop & 63];
	bool ok = false;
	pthread_mutex_lock(&me.t->loopmu);
	if (l->incr > 0 ? l->next < l->end : l->next > l->end) {
		*is = l->next;
		l->next += l->chunk * l->incr;
		if (l->incr > 0 ? l->next > l->end : l->next < l->end) l->next = l->end;
		*ie = l->next;
		ok = true;
	}
	pthread_mutex_unlock(&me.t->loopmu);
	return ok;
}
static bool
loop_start (long s, long e, long i, long c, long *is, long *ie)
{
	if (!me.t) return false;
	me.nloop++;
	struct Loop *l = &me.t->loop[me.nloop & 63];
	pthread_mutex_lock(&me.t->loopmu);
	if (!l->init) { l->init = true; l->next = s; l->end = e; l->incr = i; l->chunk = c > 0 ? c : 1; }
	pthread_mutex_unlock(&me.t->loopmu);
	return loop_next(is, ie);
}
#define LOOP(k) \
bool GOMP_loop_ ## k ## _start (long s, long e, long i, long c, long *is, long *ie) { return loop_start(s, e, i, c, is, ie); } \
bool GOMP_loop_ ## k ## _next (long *is, long *ie) { return loop_next(is, ie); } \
bool GOMP_loop_ull_ ## k ## _start (bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *is, unsigned long long *ie) { (void) up; return loop_start((long) s, (long) e, (long) i, (long) c, (long *) is, (long *) ie); } \
bool GOMP_loop_ull_ ## k ## _next (unsigned long long *is, unsigned long long *ie) { return loop_next((long *) is, (long *) ie); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(static)
void GOMP_loop_end (void) { GOMP_barrier(); }
void GOMP_loop_end_nowait (void) { }
bool GOMP_loop_end_cancel (void) { GOMP_barrier(); return false; }
static void *copy_ptr;
void *GOMP_single_copy_start (void) { if (GOMP_single_start()) return NULL; GOMP_barrier(); return __atomic_load_n(&copy_ptr, __ATOMIC_RELAXED); }
void GOMP_single_copy_end (void *p) { __atomic_store_n(&copy_ptr, p, __ATOMIC_RELAXED); GOMP_barrier(); }
#define set_team(n) (want_team = (n))
#else
#include <omp.h>
#define set_team(n) omp_set_num_threads(n)
static bool want_serial;
#endif

// ------------------------------------------------------------ what is run
static u8 *data, *text, *bad, *exp_;
static size_t maxn;

// The monitor of writes: what changes in the output while a thread runs.
// With two different initial contents, no write can go unnoticed.
static u8 *mon_out, *mon_snap, *mon_who;	// the writer of each byte + 1
static size_t mon_n;
static u64 mon_phase_of, n_segs, n_written;
static bool mon_on;
static int mon_bad;
#ifdef SHIM
static void
seg_begin (int id)
{
	(void) id;
	if (mon_on) memcpy(mon_snap, mon_out, mon_n);
}
static void
seg_end (int id)
{
	if (!mon_on) return;
	n_segs++;
	if (me.t->phase != mon_phase_of) { mon_phase_of = me.t->phase; memset(mon_who, 0, mon_n); }	// a barrier orders them
	for (size_t i = 0; i < mon_n; i++) {
		if (mon_out[i] == mon_snap[i]) continue;
		n_written++;
		if (mon_who[i] && mon_who[i] != id + 1 && !mon_bad) {
			mon_bad = 1;
			viol("write-write", "threads %d and %d of %d both write output byte %zu between the same barriers", mon_who[i] - 1, id, me.t->n, i);
		}
		mon_who[i] = (u8) (id + 1);
	}
}
#endif

static size_t src_at (size_t n, int at) { return place(&SRC, n, at); }

static void
enc_case (const Codec *c, size_t n, int team, int at, int fillv)
{
	size_t so = src_at(n, at), m = ref_enclen(n), dof = place(&DST, m, at), len = 0xDEAD;
	set_team(team);
	memcpy(SRC.rw + so, data, n);
	paint(dof, m);
	if (fillv >= 0) memset(DST.rw + dof, fillv, m);
#ifdef SHIM
	mon_out = DST.use + dof; mon_n = m; mon_phase_of = 0; if (mon_on) memset(mon_who, 0, m);
#endif
	base64_encode((char *) SRC.use + so, n, (char *) DST.use + dof, &len, c->flag);
	if (len != m) { viol("omp-enc-outlen", "outlen %zu, must be %zu", len, m); return; }
	ref_encode(data, n, exp_);
	if (memcmp(DST.rw + dof, exp_, m)) { viol("omp-enc", "wrong output at offset %zu of %zu", first_diff(DST.rw + dof, exp_, m), m); return; }
	check_paint(dof, m, m, "omp-enc-write");
}

// Decode the text in "bad", m bytes; it is what it is.
static void
dec_case (const Codec *c, size_t m, int team, int at, int fillv)
{
	size_t so = src_at(m, at), cap = m / 4 * 3 + (m % 4) * 3 / 4, dof = place(&DST, cap, at), len = 0xDEAD, el;
	set_team(team);
	memcpy(SRC.rw + so, bad, m);
	paint(dof, cap);
	if (fillv >= 0) memset(DST.rw + dof, fillv, cap);
#ifdef SHIM
	mon_out = DST.use + dof; mon_n = cap; mon_phase_of = 0; if (mon_on) memset(mon_who, 0, cap);
#endif
	int ret = base64_decode((char *) SRC.use + so, m, (char *) DST.use + dof, &len, c->flag);
	RefDec d = { ACTIVE, 0, 0 };
	int r1 = ref_dec(&d, bad, m, exp_, &el), er = r1 && (d.st == ENDED || (d.st == ACTIVE && d.n == 0));
	if (ret != er) { viol("omp-dec-ret", "returns %d, must be %d", ret, er); return; }
	if (er) {
		if (len != el) { viol("omp-dec-outlen", "outlen %zu, must be %zu", len, el); return; }
		if (memcmp(DST.rw + dof, exp_, el)) { viol("omp-dec", "wrong output at offset %zu of %zu", first_diff(DST.rw + dof, exp_, el), el); return; }
	}
	else {
		// Failure: 0, or the length of a correct prefix.
		if (len > el || memcmp(DST.rw + dof, exp_, len)) { viol("omp-dec-fail-outlen", "fails with outlen %zu, of which not all are correct; %zu bytes precede the error", len, el); return; }
	}
	check_paint(dof, cap, cap, "omp-dec-write");
}

static const int teams[] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 33, 64, 100 };
#define NTEAMS 15

static size_t
pick_len (Rng *r, int team, int q, bool big)
{
	// Around the threshold, and around multiples of the parts
	size_t base = (size_t) team * (size_t) q;
	switch (rndn(r, 5)) {
	case 0: return 20000 + rndn(r, 40) - 20;
	case 1: return 20000 + rndn(r, 3 * base + 1);
	case 2: { size_t k = 20000 / base + 1 + rndn(r, big ? 4000 / (u64) team : 40); return k * base + rndn(r, 9) - 4; }
	case 3: { size_t k = 20000 / base + 1 + rndn(r, 20); return k * base + rndn(r, base); }
	default: return big ? 20000 + rndn(r, maxn - 20100) : 20000 + rndn(r, 8000);
	}
}

static u64 n_err_cases, n_pad_cases, n_valid;
static void
make_bad (Rng *r, size_t *mp, int team)
{
	size_t m = *mp, part = m / ((size_t) team * 4) * 4;
	int what = (int) rndn(r, 8);
	// A position near a part's boundary, or anywhere, or near an end
	size_t p, w = rndn(r, 5);
	if (w < 2) { p = part * (1 + rndn(r, (u64) team)); p = p + rndn(r, 10); p = p > 6 ? p - 6 : 0; }
	else if (w == 2) p = rndn(r, m);
	else if (w == 3) p = m - 1 - rndn(r, 6);
	else p = rndn(r, 6);
	if (p >= m) p = m - 1;
	switch (what) {
	case 0: n_valid++; break;
	case 1: bad[p] = (u8) "!\n \x80\xff\0-_"[rndn(r, 8)]; n_err_cases++; break;
	case 2: bad[p] = '='; n_pad_cases++; break;
	case 3: bad[p] = '='; if (p + 1 < m) bad[p + 1] = '='; n_pad_cases++; break;
	case 4: { size_t b = part * (1 + rndn(r, (u64) team)); if (b > m) b = m; if (b >= 4) { bad[b - 1] = '='; if (rndn(r, 2)) bad[b - 2] = '='; } n_pad_cases++; break; }
	case 5: *mp = m - rndn(r, 4); n_err_cases++; break;	// cut off
	case 6: for (int k = 0; k < 3; k++) bad[rndn(r, m)] = rndn(r, 2) ? '=' : '*'; n_err_cases++; break;
	default: bad[m - 1] = '='; if (rndn(r, 2)) bad[m - 2] = '='; n_valid++; break;
	}
}

static void
random_case (Rng *r, int k, bool big, int team)
{
	const Codec *c = &codecs[rndn(r, (u64) ncodecs)];
	int at = (int) rndn(r, 2);
	if (k % 2) {
		size_t n = pick_len(r, team, 3, big);
		if (n > maxn) n = maxn;
		CASE("omp encode codec=%s n=%zu team=%d case=%d", c->name, n, team, k);
		enc_case(c, n, team, at, -1);
		if (mon_on) enc_case(c, n, team, at, 0);
		seen(hash_bytes(&n, sizeof n, (u64) team) + (u64) c->flag);
	}
	else {
		size_t m = pick_len(r, team, 4, big);
		m &= ~(size_t) 3;
		if (m < 20000) m = 20000;
		memcpy(bad, text, m);
		make_bad(r, &m, team);
		CASE("omp decode codec=%s m=%zu team=%d case=%d seed=%llu", c->name, m, team, k, (unsigned long long) r->s);
		dec_case(c, m, team, at, -1);
		if (mon_on) dec_case(c, m, team, at, 0);
		seen(hash_bytes(bad, m, (u64) team) + (u64) c->flag);
	}
}

static void *
app_thread (void *a)
{
	// Several application threads: own buffers, results compared.
	int id = (int) (intptr_t) a;
	Rng r = rng_for(seed, 70, (u64) id);
	u8 *o = malloc(70000), *e = malloc(70000);
	for (int k = 0; k < (scale == 0 ? 15 : 60); k++) {
		const Codec *c = &codecs[rndn(&r, (u64) ncodecs)];
		size_t n = 20000 + rndn(&r, 20000), len = 0, m = ref_enclen(n);
		char b[200];
		base64_encode((char *) data, n, (char *) o, &len, c->flag);
		ref_encode(data, n, e);
		if (len != m || memcmp(o, e, m)) { sprintf(b, "VIOL\tomp-concurrent\tcall by application thread %d, n=%zu: wrong result\n", id, n); safe_puts(b); n_viol++; break; }
		u8 *p = malloc(n + 10);
		int bp = rndn(&r, 2) ? (int) rndn(&r, m) : -1;
		if (bp >= 0) e[bp] = '!';
		int ret = base64_decode((char *) e, m, (char *) p, &len, c->flag);
		if (ret != (bp < 0) || (ret && (len != n || memcmp(p, data, n)))) { sprintf(b, "VIOL\tomp-concurrent\tdecoding by application thread %d, n=%zu: returns %d\n", id, n, ret); safe_puts(b); n_viol++; break; }
		free(p);
	}
	free(o); free(e);
	return NULL;
}

static void
app_threads (int n)
{
	pthread_t t[16];
	CASE("%d application threads at once", n);
	for (int i = 0; i < n; i++) pthread_create(&t[i], NULL, app_thread, (void *) (intptr_t) i);
	for (int i = 0; i < n; i++) pthread_join(t[i], NULL);
	if (n_viol) finish(1);
	printf("STAT\tapplication_threads\t%d\n", n);
}

int
main (int argc, char **argv)
{
	const char *mode = "", *have = "";
	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], NULL, 0);
		else if (!strcmp(argv[i], "--scale")) scale = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--codec")) i++;
		else if (!strcmp(argv[i], "--have")) have = argv[++i];
		else mode = argv[i];
	}
	(void) have;
	common_init();
	ref_init();
	maxn = 400000;
	SRC = arena_new(maxn * 2, true, "(next to or in the input buffer)");
	DST = arena_new(maxn * 2, false, "(next to or in the output buffer)");
	data = malloc(maxn + 100); text = malloc(maxn * 2); bad = malloc(maxn * 2); exp_ = malloc(maxn * 2);
	mon_snap = malloc(maxn * 2); mon_who = malloc(maxn * 2);
	Rng r = rng_for(seed, 71, 0);
	gen(data, maxn, 0, &r);
	ref_encode(data, maxn - 1, text);
	find_codecs("all");

#ifndef SHIM
	if (!strcmp(mode, "res")) {
		// A systematic part: each kind of error at each side of each boundary.
		for (int ti = 0; ti < NTEAMS; ti++) {
			int team = teams[ti];
			for (int b = 0; b <= (team < 17 ? team : 3); b++) for (int dd = -5; dd <= 5; dd++) for (int what = 0; what < 4; what++) {
				if (scale == 0 && (b + dd + what + ti) % 5) continue;
				size_t m = 20000 + (rndn(&r, 3) ? rndn(&r, (u64) team * 16) : 0), part;
				m &= ~(size_t) 3;
				part = m / ((size_t) team * 4) * 4;
				long p = (long) (part * (size_t) b) + dd;
				if (p < 0 || p >= (long) m) continue;
				memcpy(bad, text, m);
				if (what == 0) bad[p] = '#';
				else if (what == 1) bad[p] = '=';
				else { bad[p] = '='; if (p + 1 < (long) m) bad[p + 1] = '='; if (what == 3) { bad[m - 1] = '='; } }
				const Codec *c = &codecs[rndn(&r, (u64) ncodecs)];
				CASE("omp decode codec=%s m=%zu team=%d, %s at %ld (boundary %d%+d)", c->name, m, team, what == 0 ? "bad character" : "padding", p, b, dd);
				dec_case(c, m, team, (int) (n_evals & 1), -1);
				seen(hash_bytes(bad, m, (u64) team) + (u64) c->flag);
				n_pad_cases++;
			}
		}
		int reps = scale == 0 ? 500 : scale == 1 ? 6000 : 60000;
		for (int k = 0; k < reps; k++) random_case(&r, k, k % 16 == 0, teams[rndn(&r, k % 4 ? 12 : NTEAMS)]);
		// Fewer threads than asked for: dynamic teams, nested regions
		omp_set_dynamic(1);
		for (int k = 0; k < reps / 10; k++) random_case(&r, k, false, teams[rndn(&r, NTEAMS)]);
		omp_set_dynamic(0);
		int fails = 0;
		#pragma omp parallel num_threads(3) reduction(+:fails)
		{
			u8 *o = malloc(60000), *e = malloc(60000);
			for (int k = 0; k < 20; k++) {
				size_t n = 20000 + (size_t) k * 7 + (size_t) omp_get_thread_num(), len;
				base64_encode((char *) data, n, (char *) o, &len, 0);
				ref_encode(data, n, e);
				if (len != ref_enclen(n) || memcmp(o, e, len)) fails++;
				if (base64_decode((char *) e, len, (char *) o, &len, 0) != 1 || len != n || memcmp(o, data, n)) fails++;
			}
			free(o); free(e);
		}
		CASE("calls from inside a parallel region");
		if (fails) viol("omp-nested", "%d wrong results", fails);
		app_threads(5);
		// A codec that is not in the build, and the default
		for (int i = 1; i < NCODECS; i++) {
			size_t len = 777, n = 30000;
			if (codec_present(all_codecs[i].flag)) continue;
			for (int team = 1; team < 9; team++) {
				set_team(team);
				CASE("omp missing codec=%s team=%d", all_codecs[i].name, team);
				len = 777;
				int ret = base64_decode((char *) text, n, (char *) exp_, &len, all_codecs[i].flag);
				if (ret != -1 || len != 0) viol("omp-missing", "decoding returns %d, outlen %zu", ret, len);
				len = 777;
				base64_encode((char *) text, n, (char *) exp_, &len, all_codecs[i].flag);
				if (len != 0) viol("omp-missing", "encoding gives outlen %zu", len);
			}
		}
		sample("res: teams of 1 to 100 threads, lengths around the threshold and multiples of the parts; errors and padding within 6 characters of all boundaries; %d random cases", reps);
	}
	else return 3;
#else
	static Team dummy; (void) dummy;
	if (!strcmp(mode, "sched")) {
		want_serial = true; mon_on = true;
		int reps = scale == 0 ? 60 : scale == 1 ? 900 : 9000;
		for (int k = 0; k < reps; k++) {
			perm_seed = (u32) rnd(&r);
			random_case(&r, k, false, k % 5 ? 1 + (int) rndn(&r, 9) : teams[rndn(&r, NTEAMS)]);
			mon_bad = 0;
		}
		mon_on = false;
		sample("sched: %d calls, each with a team of 1 to 100 threads run one at a time between barriers in random orders, twice with different output contents", reps);
		printf("STAT\tserialized_turns\t%llu\nSTAT\tsegments_monitored\t%llu\nSTAT\tbytes_attributed_to_threads\t%llu\n", (unsigned long long) n_turns, (unsigned long long) n_segs, (unsigned long long) n_written);
	}
	else if (!strcmp(mode, "race")) {
		int reps = scale == 0 ? 60 : scale == 1 ? 500 : 5000;
		for (int k = 0; k < reps; k++) {
			perm_seed = (u32) rnd(&r);
			random_case(&r, k, k % 16 == 0, k % 5 ? 1 + (int) rndn(&r, 9) : teams[rndn(&r, NTEAMS - 2)]);
		}
		want_team = 3;
		app_threads(4);
		sample("race: %d calls with teams of 1 to 33 threads running at the same time under TSan", reps);
	}
	else return 3;
	printf("STAT\tteams_run\t%llu\nSTAT\tbarriers_passed\t%llu\n", (unsigned long long) n_teams, (unsigned long long) n_barriers);
#endif
	printf("STAT\tinputs_with_errors\t%llu\nSTAT\tinputs_with_padding_inside\t%llu\nSTAT\tvalid_texts\t%llu\n", (unsigned long long) n_err_cases, (unsigned long long) n_pad_cases, (unsigned long long) n_valid);
	finish(n_viol ? 1 : 0);
}
