/* Simulated threads, simulated locks and a vector-clock race detector. */
#define _GNU_SOURCE
#include "thr.h"
#include <ucontext.h>
#include <pthread.h>
#include <errno.h>
#include <sys/mman.h>

int thr_active, thr_cur = THR_MAX;
uint64_t thr_accesses, thr_switches, thr_syncs;

/* ---------------- static data of the library (sections renamed by the build) ---------------- */
extern unsigned char __start_simdata[] __attribute__((weak)), __stop_simdata[] __attribute__((weak));
extern unsigned char __start_simbss[] __attribute__((weak)), __stop_simbss[] __attribute__((weak));
static struct { unsigned char *s, *e, *snap, *val, *flag; } st[2];
void thr_init(void)
{
	if (st[0].snap) return;
	st[0].s = __start_simdata; st[0].e = __stop_simdata; st[1].s = __start_simbss; st[1].e = __stop_simbss;
	for (int i = 0; i < 2; i++) {
		size_t n = (size_t)(st[i].e - st[i].s);
		st[i].snap = malloc(n + 1); st[i].val = malloc(n + 1); st[i].flag = calloc(1, n + 1);
		memcpy(st[i].snap, st[i].s, n);
	}
}
void thr_cold(void) { for (int i = 0; i < 2; i++) memcpy(st[i].s, st[i].snap, (size_t)(st[i].e - st[i].s)); }
static inline int st_of(uintptr_t a) { for (int i = 0; i < 2; i++) if (a >= (uintptr_t)st[i].s && a < (uintptr_t)st[i].e) return i; return -1; }

/* ---------------- threads ---------------- */
#define STKSZ (512u << 10)
typedef struct { ucontext_t uc; int state; /* 0 unused 1 runnable 2 blocked 3 done */ const void *waits; int armed, err; const char *phase; uint64_t cnt[3], next[3]; } Thr;
static Thr th[THR_MAX]; static ucontext_t main_uc; static int nth;
static unsigned char stk[THR_MAX][STKSZ] __attribute__((aligned(4096)));
static void (*thr_fn)(int);
static const Plan *thr_plan;
static Rng walk; static uint32_t walk_period;
typedef uint32_t VC[THR_MAX + 1];
static VC vc[THR_MAX + 1];
static void vc_join(VC a, const VC b) { for (int i = 0; i <= THR_MAX; i++) if (b[i] > a[i]) a[i] = b[i]; }

static void store_resolve(void);
static void thr_main(int t)
{
	thr_fn(t);
	store_resolve();
	th[t].state = 3;
	vc_join(vc[THR_MAX], vc[t]);
	/* choose somebody else */
	for (int i = 1; i <= nth; i++) { int k = (t + i) % nth; if (th[k].state == 1) { thr_cur = k; os_armed = th[k].armed; errno = th[k].err; sim_phase = th[k].phase; setcontext(&th[k].uc); } }
	for (int i = 0; i < nth; i++) if (th[i].state == 2) sim_viol("deadlock", "thread %d waits for a lock nobody will release", i);
	thr_cur = THR_MAX;
	setcontext(&main_uc);
}
static void thr_to(int k)
{
	int me = thr_cur;
	if (k == me) return;
	thr_switches++; STAT(ST_SWITCH);
	sim_ev(0x7000u + (unsigned)k);
	th[me].armed = os_armed; th[me].err = errno; th[me].phase = sim_phase;
	thr_cur = k; os_armed = th[k].armed; errno = th[k].err; sim_phase = th[k].phase;
	swapcontext(&th[me].uc, &th[k].uc);
}
static void thr_yield(int want)
{
	for (int i = 0; i < nth; i++) { int k = (want + i) % nth; if (k != thr_cur && th[k].state == 1) { thr_to(k); return; } }
}
static void next_decision(Thr *t, int me, int c, int *target)
{
	uint64_t best = ~(uint64_t)0;
	for (int i = 0; i < thr_plan->n; i++) {
		const Line *l = thr_plan->l + i;
		if (l->k != 'S' || l->op != c || (int)((uint64_t)l->a[0] % (unsigned)nth) != me) continue;
		if (target && (uint64_t)l->a[1] == t->cnt[c]) *target = (int)((uint64_t)l->a[2] % (unsigned)nth);
		if ((uint64_t)l->a[1] > t->cnt[c] && (uint64_t)l->a[1] < best) best = (uint64_t)l->a[1];
	}
	t->next[c] = best;
}
/* c: 0 any access, 1 access to shared memory, 2 lock, heap and system calls */
static void point(int c)
{
	Thr *t = th + thr_cur; int target = -1;
	if (++t->cnt[c] == t->next[c]) next_decision(t, thr_cur, c, &target);
	if (walk_period && c && target < 0 && rn(&walk, walk_period) == 0) target = (int)rn(&walk, (uint32_t)nth);
	if (target >= 0) thr_yield(target);
}

/* ---------------- locks ---------------- */
#define NLOCK 64
static struct { const void *p; int owner, depth, readers; VC v; } lk[NLOCK]; static int nlk;
static int lock_of(const void *p)
{
	for (int i = 0; i < nlk; i++) if (lk[i].p == p) return i;
	if (nlk == NLOCK) sim_harness_error("too many locks");
	memset(lk + nlk, 0, sizeof *lk); lk[nlk].p = p; lk[nlk].owner = -1;
	return nlk++;
}
void thr_locks_free(const char *where) { for (int i = 0; i < nlk; i++) if (lk[i].owner >= 0 || lk[i].readers) sim_viol("lock-held", "%s: a lock is still held", where); }
static void sync_acq(int i) { vc_join(vc[thr_cur], lk[i].v); }
static void sync_rel(int i) { vc_join(lk[i].v, vc[thr_cur]); vc[thr_cur][thr_cur]++; }
static void lock_wait(const void *p)
{
	th[thr_cur].state = 2; th[thr_cur].waits = p;
	for (int i = 1; i < nth; i++) { int k = (thr_cur + i) % nth; if (th[k].state == 1) { thr_to(k); return; } }
	sim_viol("deadlock", "thread %d waits for a lock and no thread can run", thr_cur);
}
static void lock_wake(const void *p) { for (int i = 0; i < nth; i++) if (th[i].state == 2 && th[i].waits == p) { th[i].state = 1; th[i].waits = NULL; } }
static int do_lock(const void *p, int try, int rd)
{
	int i, inthr = thr_active && thr_cur < THR_MAX;
	store_resolve();
	thr_syncs++;
	if (inthr) point(2);
	i = lock_of(p);
	sim_ev(0x7100);
	for (;;) {
		if (rd ? lk[i].owner < 0 : (lk[i].owner < 0 && !lk[i].readers)) break;
		if (try) return EBUSY;
		if (!inthr) sim_viol("deadlock", "a lock is still held although no thread is inside the library");
		if (lk[i].owner == thr_cur) sim_viol("deadlock", "thread %d takes a lock it already holds", thr_cur);
		lock_wait(p);
	}
	if (rd) lk[i].readers++; else lk[i].owner = thr_cur;
	sync_acq(i);
	return 0;
}
static int do_unlock(const void *p)
{
	int i = lock_of(p);
	store_resolve();
	thr_syncs++;
	if (lk[i].readers) lk[i].readers--;
	else {
		if (lk[i].owner != thr_cur) sim_viol("unlock", "a lock is released by a thread that does not hold it");
		lk[i].owner = -1;
	}
	sim_ev(0x7200);
	sync_rel(i);
	lock_wake(p);
	if (thr_active && thr_cur < THR_MAX) point(2);
	return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return do_lock(m, 0, 0); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return do_lock(m, 1, 0); }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { (void)t; return do_lock(m, 0, 0); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return do_unlock(m); }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)m; (void)a; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { (void)m; return 0; }
int __wrap_pthread_spin_init(pthread_spinlock_t *m, int s) { (void)m; (void)s; return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t *m) { return do_lock((const void *)m, 0, 0); }
int __wrap_pthread_spin_trylock(pthread_spinlock_t *m) { return do_lock((const void *)m, 1, 0); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t *m) { return do_unlock((const void *)m); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { return do_lock(m, 0, 1); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return do_lock(m, 0, 0); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { return do_unlock(m); }
static struct { const void *p; int done; } onces[32]; static int nonce;
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void))
{
	int i;
	do_lock(o, 0, 0);
	for (i = 0; i < nonce && onces[i].p != o; i++);
	if (i == nonce) { if (nonce == 32) sim_harness_error("onces"); onces[nonce].p = o; onces[nonce].done = 0; nonce++; }
	if (!onces[i].done) { f(); onces[i].done = 1; }
	return do_unlock(o);
}

/* ---------------- race detector ---------------- */
#define NCELL (1u << 18)
typedef struct { uintptr_t a; uint32_t gen; uint8_t wt, wm, rm[THR_MAX + 1]; uint32_t wc, rc[THR_MAX + 1]; } Cell;
static Cell *cells; static uint32_t gen; static unsigned ncells;
static Cell *cell_of(uintptr_t a)
{
	unsigned i = (unsigned)((a >> 3) * 2654435761u) & (NCELL - 1);
	for (;; i = (i + 1) & (NCELL - 1)) {
		Cell *c = cells + i;
		if (c->gen != gen) { if (ncells > NCELL / 4 * 3) return NULL; memset(c, 0, sizeof *c); c->gen = gen; c->a = a; ncells++; return c; }
		if (c->a == a) return c;
	}
}
/* Stores to the library's static data: the value becomes known at the next hook. */
static struct { uintptr_t a; size_t n; } pst; static int nrace; static struct { uintptr_t a; int size, t, u, w; } races[64];
static void store_resolve(void)
{
	int r; uintptr_t k, n;
	if (!pst.n) return;
	r = st_of(pst.a);
	k = pst.a - (uintptr_t)st[r].s; n = (uintptr_t)(st[r].e - st[r].s);
	for (; pst.n && k < n; pst.n--, k++) {
		if (!st[r].flag[k]) { st[r].flag[k] = 1; st[r].val[k] = st[r].s[k]; }
		else if (st[r].val[k] != st[r].s[k]) st[r].flag[k] = 2;
	}
	pst.n = 0;
}
static void race(uintptr_t a, int size, int u, int write)
{
	int r = st_of(a);
	STAT(ST_RACECHK);
	if (r < 0) {
		OsMap *m = os_find((void *)a);
		sim_viol("race", "%s of %d bytes of %s by thread %d is not ordered with an access of thread %d", write ? "write" : "read", size, m ? "executable or stack memory" : "heap memory", thr_cur, u);
	}
	if (nrace < 64) { races[nrace].a = a; races[nrace].size = size; races[nrace].t = thr_cur; races[nrace].u = u; races[nrace].w = write; nrace++; }
}
static inline int own_stack(uintptr_t a) { return a - (uintptr_t)stk < sizeof stk; }
static int is_shared(uintptr_t a) { return st_of(a) >= 0 || os_find((void *)a) != NULL; }
static void track(uintptr_t a, size_t size, int write)
{
	int me = thr_cur; uintptr_t e = a + size, p = a & ~(uintptr_t)7;
	for (; p < e; p += 8) {
		unsigned lo = p < a ? (unsigned)(a - p) : 0, hi = e - p < 8 ? (unsigned)(e - p) : 8, u; uint8_t m = (uint8_t)((0xff >> (8 - (hi - lo))) << lo);
		Cell *c = cell_of(p);
		if (!c) return;
		if ((c->wm & m) && c->wt != me && c->wc > vc[me][c->wt]) race(p + lo, (int)(hi - lo), c->wt, write);
		if (write) {
			for (u = 0; u < (unsigned)nth; u++) if ((int)u != me && (c->rm[u] & m) && c->rc[u] > vc[me][u]) race(p + lo, (int)(hi - lo), (int)u, 1);
			if (c->wt == me && c->wc == vc[me][me]) c->wm |= m; else { c->wt = (uint8_t)me; c->wc = vc[me][me]; c->wm = m; }
		} else {
			if (c->rc[me] == vc[me][me]) c->rm[me] |= m; else { c->rc[me] = vc[me][me]; c->rm[me] = m; }
		}
	}
}
static void access_hook(uintptr_t a, size_t size, int write)
{
	if (pst.n) store_resolve();
	if (!thr_active || thr_cur == THR_MAX || own_stack(a) || !os_armed) return;
	thr_accesses++;
	point(is_shared(a));
	track(a, size, write);
	if (write && st_of(a) >= 0) { pst.a = a; pst.n = size; }
}
/* heap, system calls: what = 0 malloc 1 free 2 mmap 3 munmap 4 mprotect 5 open */
static void os_hook(int what)
{
	uintptr_t a = os_hook_addr, e = a + os_hook_len;
	if (pst.n) store_resolve();
	if (!thr_active || thr_cur == THR_MAX) return;
	point(2);
	if (what == 3) for (; a < e; a += 8) { /* the pages are gone; what gets mapped there later is new memory */
		unsigned i = (unsigned)((a >> 3) * 2654435761u) & (NCELL - 1);
		for (; cells[i].gen == gen; i = (i + 1) & (NCELL - 1)) if (cells[i].a == a) { cells[i].wm = 0; memset(cells[i].rm, 0, sizeof cells[i].rm); break; }
	}
}
static void thr_freed(void *p, size_t n) { if (thr_active && thr_cur < THR_MAX) track((uintptr_t)p, n > 65536 ? 65536 : n, 1); }

void thr_run(int n, void (*fn)(int), const Plan *p)
{
	int i, c;
	if (!cells) { int a = os_armed; os_armed = 0; cells = mmap(NULL, NCELL * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (cells == MAP_FAILED) sim_harness_error("cells"); os_armed = a; }
	gen++; ncells = 0; nlk = 0; nonce = 0; nrace = 0; pst.n = 0;
	for (i = 0; i < 2; i++) memset(st[i].flag, 0, (size_t)(st[i].e - st[i].s));
	memset(vc, 0, sizeof vc); memset(th, 0, sizeof th);
	nth = n; thr_fn = fn; thr_plan = p; walk_period = 0;
	for (i = 0; i < p->n; i++) if (p->l[i].k == 'S' && p->l[i].op == 3) { walk.s = (uint64_t)p->l[i].a[0]; walk_period = (uint32_t)p->l[i].a[1]; }
	for (i = 0; i < n; i++) {
		getcontext(&th[i].uc);
		th[i].uc.uc_stack.ss_sp = stk[i]; th[i].uc.uc_stack.ss_size = STKSZ; th[i].uc.uc_link = NULL;
		makecontext(&th[i].uc, (void (*)(void))thr_main, 1, i);
		th[i].state = 1; th[i].armed = os_armed; th[i].phase = "thread";
		vc[i][i] = 1;
		for (c = 0; c < 3; c++) next_decision(th + i, i, c, NULL);
	}
	os_yield_hook = os_hook; os_freed_hook = thr_freed;
	thr_active = 1; thr_cur = 0;
	swapcontext(&main_uc, &th[0].uc);
	thr_active = 0; thr_cur = THR_MAX;
	os_yield_hook = NULL; os_freed_hook = NULL;
	sim_phase = "joined";
	store_resolve();
	for (i = 0; i < nrace; i++) {
		int r = st_of(races[i].a); uintptr_t k = races[i].a - (uintptr_t)st[r].s; int j;
		for (j = 0; j < races[i].size; j++) if (st[r].flag[k + (unsigned)j] == 2)
			sim_viol("race", "%s of %d bytes of static data by thread %d is not ordered with an access of thread %d", races[i].w ? "write" : "read", races[i].size, races[i].t, races[i].u);
	}
	STATN(ST_STEPS, 0);
}

/* ---------------- what -fsanitize=thread calls ---------------- */
#define RW(n) \
	void __tsan_read##n(void *a) { access_hook((uintptr_t)a, n, 0); } \
	void __tsan_write##n(void *a) { access_hook((uintptr_t)a, n, 1); } \
	void __tsan_unaligned_read##n(void *a) { access_hook((uintptr_t)a, n, 0); } \
	void __tsan_unaligned_write##n(void *a) { access_hook((uintptr_t)a, n, 1); } \
	void __tsan_volatile_read##n(void *a) { access_hook((uintptr_t)a, n, 0); } \
	void __tsan_volatile_write##n(void *a) { access_hook((uintptr_t)a, n, 1); } \
	void __tsan_unaligned_volatile_read##n(void *a) { access_hook((uintptr_t)a, n, 0); } \
	void __tsan_unaligned_volatile_write##n(void *a) { access_hook((uintptr_t)a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { if (n) access_hook((uintptr_t)a, n, 0); }
void __tsan_write_range(void *a, unsigned long n) { if (n) access_hook((uintptr_t)a, n, 1); }
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) { }
void __tsan_init(void) { }
void __tsan_vptr_update(void **a, void *b) { (void)b; access_hook((uintptr_t)a, sizeof(void *), 1); }
void *sim_memcpy(void *d, const void *s, size_t n) { if (n) { access_hook((uintptr_t)s, n, 0); access_hook((uintptr_t)d, n, 1); } return memcpy(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { if (n) { access_hook((uintptr_t)s, n, 0); access_hook((uintptr_t)d, n, 1); } return memmove(d, s, n); }
void *sim_memset(void *d, int v, size_t n) { if (n) access_hook((uintptr_t)d, n, 1); return memset(d, v, n); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { return sim_memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return sim_memmove(d, s, n); }
void *__tsan_memset(void *d, int v, size_t n) { return sim_memset(d, v, n); }
/* atomics: every one is a scheduling point, an acquire and a release; a busy loop gives way */
static unsigned at_spin;
static void at_pre(const volatile void *a)
{
	int i;
	if (pst.n) store_resolve();
	if (!thr_active || thr_cur == THR_MAX) return;
	point(2);
	if ((++at_spin & 15) == 0) thr_yield((thr_cur + 1) % nth);
	i = lock_of((const void *)a); sync_acq(i); sync_rel(i);
}
#define AT(B, T) \
	T __tsan_atomic##B##_load(const volatile T *a, int o) { (void)o; at_pre(a); return *a; } \
	void __tsan_atomic##B##_store(volatile T *a, T v, int o) { (void)o; at_pre(a); *a = v; } \
	T __tsan_atomic##B##_exchange(volatile T *a, T v, int o) { T x; (void)o; at_pre(a); x = *a; *a = v; return x; } \
	T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int o) { T x; (void)o; at_pre(a); x = *a; *a = (T)(x + v); return x; } \
	T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int o) { T x; (void)o; at_pre(a); x = *a; *a = (T)(x - v); return x; } \
	T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int o) { T x; (void)o; at_pre(a); x = *a; *a = x & v; return x; } \
	T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int o) { T x; (void)o; at_pre(a); x = *a; *a = x | v; return x; } \
	T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int o) { T x; (void)o; at_pre(a); x = *a; *a = x ^ v; return x; } \
	T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int o) { T x; (void)o; at_pre(a); x = *a; *a = (T)~(x & v); return x; } \
	int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int o, int f) { (void)o; (void)f; at_pre(a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int o, int f) { (void)o; (void)f; at_pre(a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int o, int f) { T x; (void)o; (void)f; at_pre(a); x = *a; if (x == c) *a = v; return x; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void)o; }
void __tsan_atomic_signal_fence(int o) { (void)o; }
