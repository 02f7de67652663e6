#define _GNU_SOURCE
#include "core.h"
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <setjmp.h>
#include <ucontext.h>
#include <pthread.h>

#ifndef MAP_FIXED_NOREPLACE
#define MAP_FIXED_NOREPLACE 0x100000
#endif

uint64_t sim_hash, sim_events, sim_batch_hash;
uint64_t sim_stat[ST_COUNT];
const char *sim_phase = "start";
int sim_refused; /* a permission change was refused during the current operation */
int sim_thorough, sim_show;
static uint64_t cur_seed;
static const char *cur_prop = "?";

void sim_ev(uint64_t v) { sim_hash = (sim_hash ^ v) * 0x100000001b3ull; sim_hash ^= sim_hash >> 29; sim_events++; }

/* ---------------- plan ---------------- */
Line *plan_add(Plan *p, int k, int op, int nargs, ...)
{
	va_list ap; Line *l; int i;
	if (p->n == p->cap) { p->cap = p->cap ? p->cap * 2 : 256; p->l = realloc(p->l, sizeof(Line) * (size_t)p->cap); }
	l = p->l + p->n++;
	memset(l, 0, sizeof *l);
	l->k = (char)k; l->op = op;
	va_start(ap, nargs);
	for (i = 0; i < nargs; i++) l->a[i] = va_arg(ap, int64_t);
	va_end(ap);
	return l;
}
void plan_clear(Plan *p) { p->n = 0; }
int64_t plan_par(const Plan *p, int id, int64_t d)
{
	for (int i = 0; i < p->n; i++) if (p->l[i].k == 'P' && p->l[i].op == id) return p->l[i].a[0];
	return d;
}
void plan_print(const Plan *p, FILE *f)
{
	fprintf(f, "seed %llu\n", (unsigned long long)p->seed);
	for (int i = 0; i < p->n; i++) {
		int m = PLAN_ARGS;
		while (m > 0 && !p->l[i].a[m - 1]) m--;
		fprintf(f, "%c %d", p->l[i].k, p->l[i].op);
		for (int j = 0; j < m; j++) fprintf(f, " %lld", (long long)p->l[i].a[j]);
		fprintf(f, "\n");
	}
}
int plan_read(Plan *p, FILE *f)
{
	char buf[512];
	int more = 0;
	p->n = 0; p->seed = 0;
	while (fgets(buf, sizeof buf, f)) {
		char *s = buf, *e; Line *l;
		if (!strncmp(buf, "---", 3)) { more = 1; break; }
		if (!strncmp(buf, "seed ", 5)) { p->seed = strtoull(buf + 5, NULL, 10); continue; }
		if (!strchr("POFCAS", buf[0]) || buf[1] != ' ') continue;
		l = plan_add(p, buf[0], 0, 0);
		s = buf + 1;
		l->op = (int)strtol(s, &e, 10); s = e;
		for (int j = 0; j < PLAN_ARGS; j++) { long long v = strtoll(s, &e, 10); if (e == s) break; l->a[j] = v; s = e; }
	}
	return more;
}

/* ---------------- reporting ---------------- */
static void out_flush(void) { fflush(stdout); }
static int in_batch;
static void stat_dump(void)
{
	char b[ST_COUNT * 22 + 16]; int n = 4, i;
	if (!in_batch) return;
	memcpy(b, "STAT", 4);
	for (i = 0; i < ST_COUNT; i++) n += snprintf(b + n, sizeof b - (size_t)n, " %llu", (unsigned long long)sim_stat[i]);
	b[n++] = '\n';
	if (write(1, b, (size_t)n) < 0) _exit(12);
}
void sim_viol(const char *cls, const char *fmt, ...)
{
	char b[600]; va_list ap;
	os_armed = 0;
	va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	printf("VIOL %s %llu %s phase=%s%s %s\n", cur_prop, (unsigned long long)cur_seed, cls, sim_phase, sim_refused ? "+refused" : "", b);
	out_flush();
	stat_dump();
	_exit(10);
}
void sim_harness_error(const char *fmt, ...)
{
	char b[600]; va_list ap;
	os_armed = 0;
	va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	printf("HERR %s %llu %s\n", cur_prop, (unsigned long long)cur_seed, b);
	out_flush();
	_exit(11);
}
void sim_assert_fail(const char *file, int line);
void sim_assert_fail(const char *file, int line)
{
	const char *b = strrchr(file, '/'); char c[100];
	snprintf(c, sizeof c, "assert-%s:%d", b ? b + 1 : file, line);
	sim_viol(c, "internal assertion failed");
}
/* ---- what the processor reports about itself: SIM_CPUMASK clears bits of it ----
   "leaf:register:bits,..." for cpuid, "x:0:bits" for the enabled states (xgetbv), "h:0:bits" for the hardware capabilities of the kernel */
static uint32_t cpu_mask(const char *leaf, uint64_t sub, int reg)
{
	const char *m = getenv("SIM_CPUMASK"); uint32_t r = 0; char b[32]; int n;
	if (leaf) n = snprintf(b, sizeof b, "%s:%d:", leaf, reg);
	else n = snprintf(b, sizeof b, "%llx:%d:", (unsigned long long)sub, reg);
	while (m && *m) { if (!strncmp(m, b, (size_t)n)) r |= (uint32_t)strtoul(m + n, NULL, 16); m = strchr(m, ','); if (m) m++; }
	return r;
}
unsigned long __real_getauxval(unsigned long t);
unsigned long __wrap_getauxval(unsigned long t) { unsigned long v = __real_getauxval(t); return t == 16 ? v & ~(unsigned long)cpu_mask("h", 0, 0) : v; }
#ifdef SIM_CPUSEAM
#include <cpuid.h>
#ifdef __x86_64__
#define UREG(u, r) (u)->uc_mcontext.gregs[REG_R##r]
#else
#define UREG(u, r) (u)->uc_mcontext.gregs[REG_E##r]
#endif
static int cpu_seam(ucontext_t *u)
{
	const unsigned char *ip = (const unsigned char *)UREG(u, IP); unsigned r[4]; uint32_t leaf = (uint32_t)UREG(u, AX);
	if (ip[0] != 0x0f || ip[1] != 0x0b || ip[2] != 0x0f) return 0;
	if (ip[3] == 0xa2) {
		__cpuid_count(leaf, (uint32_t)UREG(u, CX), r[0], r[1], r[2], r[3]);
		for (int i = 0; i < 4; i++) r[i] &= ~cpu_mask(NULL, leaf, i);
		UREG(u, AX) = r[0]; UREG(u, BX) = r[1]; UREG(u, CX) = r[2]; UREG(u, DX) = r[3]; UREG(u, IP) += 4;
		return 1;
	}
	if (ip[3] == 0x01 && ip[4] == 0xd0) {
		__asm__ volatile ("xgetbv" : "=a"(r[0]), "=d"(r[1]) : "c"((uint32_t)UREG(u, CX)));
		UREG(u, AX) = r[0] & ~cpu_mask("x", 0, 0); UREG(u, DX) = r[1]; UREG(u, IP) += 5;
		return 1;
	}
	return 0;
}
#endif
#if defined __x86_64__ || defined __i386__
__attribute__((force_align_arg_pointer)) /* some emulators misalign it */
#endif
static void crash_handler(int sig, siginfo_t *si, void *uc)
{
	char b[256]; int n;
	(void)uc; (void)si;
#ifdef SIM_CPUSEAM
	if (sig == SIGILL && cpu_seam(uc)) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = crash_handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESETHAND | SA_NODEFER; sigaction(SIGILL, &sa, NULL); return; }
#endif
	n = snprintf(b, sizeof b, "VIOL %s %llu crash-sig%d phase=%s%s -\n", cur_prop, (unsigned long long)cur_seed, sig, sim_phase, sim_refused ? "+refused" : "");
	if (write(1, b, (size_t)n) < 0) _exit(12);
	stat_dump();
	_exit(10);
}

/* distinct states: open addressing set, saturating */
#define SSZ (1u << 16)
static uint64_t sset[SSZ]; static unsigned sset_n;
void sim_state(uint64_t h)
{
	unsigned i;
	if (!h) h = 1;
	if (sset_n > SSZ * 3 / 4) return;
	for (i = (unsigned)(h * 0x9e3779b97f4a7c15ull >> 48) & (SSZ - 1); sset[i]; i = (i + 1) & (SSZ - 1)) if (sset[i] == h) return;
	sset[i] = h; sset_n++;
}

/* ---------------- faults ---------------- */
const char *fk_names[FK_COUNT] = { "malloc", "mmap", "mprotect", "ftruncate", "open", "mkostemp", "unlink", "memfd", "madvise", "stream", "munmap" };
static const int fk_stat[FK_COUNT] = { ST_FAULT_MALLOC, ST_FAULT_MMAP, ST_FAULT_MPROTECT, ST_FAULT_FTRUNCATE, ST_FAULT_OPEN, ST_FAULT_MKOSTEMP, ST_FAULT_UNLINK, ST_FAULT_MEMFD, ST_FAULT_MADVISE, ST_FAULT_STREAM, ST_FAULT_MUNMAP };
uint64_t fk_calls[FK_COUNT], fk_fired[FK_COUNT], fk_fired_total;
static struct { int kind; int64_t nth, cnt; } flist[256]; static int nfl;
void faults_reset(void) { nfl = 0; memset(fk_calls, 0, sizeof fk_calls); memset(fk_fired, 0, sizeof fk_fired); fk_fired_total = 0; }
void faults_add(int kind, int64_t nth, int64_t cnt)
{
	if (nfl < 256 && kind >= 0 && kind < FK_COUNT) { flist[nfl].kind = kind; flist[nfl].nth = nth; flist[nfl].cnt = cnt; nfl++; }
}
int fault_now(int kind)
{
	int64_t n = (int64_t)++fk_calls[kind];
	for (int i = 0; i < nfl; i++)
		if (flist[i].kind == kind && n >= flist[i].nth && n < flist[i].nth + flist[i].cnt) {
			fk_fired[kind]++; fk_fired_total++; STAT(fk_stat[kind]);
			sim_ev(0xfa000000u + (unsigned)kind * 65536u + (unsigned)n);
			return 1;
		}
	return 0;
}

/* ---------------- simulated heap ---------------- */
#define ARENA_SIZE (96u << 20)
#define RZ 32
typedef struct { unsigned char *p; size_t size; int live; unsigned char *map; size_t maplen; } Blk;
static unsigned char arena[ARENA_SIZE] __attribute__((aligned(4096)));
static size_t arena_top;
static Blk *blk; static int nblk, capblk; static long nlive; static uint64_t live_bytes;
uint64_t heap_total;
void (*os_freed_hook)(void *, size_t); uintptr_t os_hook_addr; size_t os_hook_len;
void *sim_heap_cookie = (void *)0; int sim_heap_guard; static int heap_fill = 0xa5; static uint64_t heap_salt;
/* open addressing index of live pointers */
#define HIX (1u << 17)
static int hix[HIX];
static unsigned hslot(void *p) { return (unsigned)(((uintptr_t)p >> 4) * 2654435761u) & (HIX - 1); }
static int hfind(void *p)
{
	unsigned i = hslot(p);
	while (hix[i]) { if (blk[hix[i] - 1].p == p) return hix[i] - 1; i = (i + 1) & (HIX - 1); }
	return -1;
}
extern int __real_madvise(void *, size_t, int);
/* contents of new blocks: a byte, or pseudo-random (-1), or whatever the memory held before (-2) */
void heap_mode(int fill, uint64_t salt) { heap_fill = fill; heap_salt = salt; }
static void heap_paint(unsigned char *p, size_t n)
{
	Rng r;
	if (heap_fill >= 0) { memset(p, heap_fill, n); return; }
	if (heap_fill == -2) return;
	r.s = heap_salt++;
	for (size_t i = 0; i < n; i += 8) { uint64_t v = rnd(&r); memcpy(p + i, &v, n - i < 8 ? n - i : 8); }
}
void heap_reset(int fill)
{
	for (int i = 0; i < nblk; i++) if (blk[i].map) munmap(blk[i].map, blk[i].maplen);
	if (arena_top > (8u << 20)) __real_madvise(arena, arena_top, MADV_DONTNEED);
	if (nblk > 20000) memset(hix, 0, sizeof hix);
	else for (int i = nblk - 1; i >= 0; i--) { unsigned k; for (k = hslot(blk[i].p); hix[k] != i + 1; k = (k + 1) & (HIX - 1)); hix[k] = 0; }
	arena_top = 0; nblk = 0; nlive = 0; live_bytes = 0; heap_fill = fill ? fill : 0xa5; heap_total = 0;
	sim_heap_guard = 0;
}
long heap_live(void) { return nlive; }
uint64_t heap_live_bytes(void) { return live_bytes; }
void *sim_malloc(size_t size, void *cookie)
{
	unsigned char *p; Blk *b; size_t tot;
	if (os_armed && cookie && cookie != sim_heap_cookie) sim_viol("allocator-data", "unexpected allocator data");
	STAT(ST_MALLOCS);
	if (!size) return NULL; /* what C allows: never an error by itself */
	if (os_yield_hook) os_yield_hook(0);
	if (fault_now(FK_MALLOC)) return NULL;
	if (nblk == capblk) { capblk = capblk ? capblk * 2 : 1024; blk = realloc(blk, sizeof(Blk) * (size_t)capblk); }
	if (nblk > (int)(HIX / 2)) sim_harness_error("too many blocks");
	b = blk + nblk;
	memset(b, 0, sizeof *b);
	if (sim_heap_guard) {
		size_t pg = 65536, len = (size + pg - 1) / pg * pg;
		unsigned char *m;
		if (len < pg) len = pg;
		m = mmap(NULL, len + pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (m == MAP_FAILED) sim_harness_error("guard heap exhausted");
		if (mprotect(m, len, PROT_READ | PROT_WRITE)) sim_harness_error("guard heap mprotect");
		b->map = m; b->maplen = len + pg;
		p = m + len - ((size + 7) & ~(size_t)7);
		heap_paint(p, size);
		memset(p + size, 0x7e, ((size + 7) & ~(size_t)7) - size);
	} else {
		tot = ((size + 15) & ~(size_t)15) + 2 * RZ;
		if (arena_top + tot > ARENA_SIZE) sim_harness_error("simulated heap exhausted (%lu)", (unsigned long)size);
		p = arena + arena_top + RZ; arena_top += tot;
		memset(p - RZ, 0xc3, RZ); heap_paint(p, size); memset(p + size, 0xc3, tot - RZ - size);
	}
	b->p = p; b->size = size; b->live = 1; nlive++; live_bytes += size; heap_total++;
	{ unsigned i = hslot(p); while (hix[i]) i = (i + 1) & (HIX - 1); hix[i] = nblk + 1; }
	nblk++;
	return p;
}
static void rz_check(Blk *b, const char *where)
{
	size_t i, tot;
	if (b->map) {
		for (i = b->size; i < ((b->size + 7) & ~(size_t)7); i++) if (b->p[i] != 0x7e) sim_viol("heap-overflow", "%s: block of %lu bytes overrun", where, (unsigned long)b->size);
		return;
	}
	tot = ((b->size + 15) & ~(size_t)15) + RZ;
	for (i = 0; i < RZ; i++) if (b->p[(long)i - RZ] != 0xc3) sim_viol("heap-underflow", "%s: block of %lu bytes", where, (unsigned long)b->size);
	for (i = b->size; i < tot; i++) if (b->p[i] != 0xc3) sim_viol("heap-overflow", "%s: block of %lu bytes overrun at +%lu", where, (unsigned long)b->size, (unsigned long)(i - b->size));
}
void sim_free(void *q, void *cookie)
{
	int i;
	if (!q) return;
	if (os_armed && cookie && cookie != sim_heap_cookie) sim_viol("allocator-data", "unexpected allocator data in free");
	if (os_yield_hook) os_yield_hook(1);
	i = hfind(q);
	if (i < 0) sim_viol("bad-free", "free of a pointer that was never allocated");
	if (!blk[i].live) sim_viol("double-free", "block of %lu bytes", (unsigned long)blk[i].size);
	rz_check(blk + i, "free");
	if (os_freed_hook) os_freed_hook(q, blk[i].size);
	blk[i].live = 0; nlive--; live_bytes -= blk[i].size;
	if (blk[i].map) mprotect(blk[i].map, blk[i].maplen, PROT_NONE);
	else memset(q, 0xdd, blk[i].size);
}
void heap_check(const char *where)
{
	for (int i = 0; i < nblk; i++) {
		Blk *b = blk + i;
		if (b->live) rz_check(b, where);
		else if (!b->map) {
			rz_check(b, where);
			for (size_t j = 0; j < b->size; j++) if (b->p[j] != 0xdd) sim_viol("write-after-free", "%s: block of %lu bytes at +%lu", where, (unsigned long)b->size, (unsigned long)j);
		}
	}
}
/* drop everything allocated since the mark; it must all be dead */
HeapMark heap_mark(void) { HeapMark m; m.n = nblk; m.top = arena_top; return m; }
void heap_rollback(HeapMark m, const char *where)
{
	for (int i = nblk - 1; i >= m.n; i--) {
		Blk *b = blk + i; unsigned k;
		if (b->live) sim_viol("leak", "%s: block of %lu bytes", where, (unsigned long)b->size);
		if (b->map) { munmap(b->map, b->maplen); }
		else {
			rz_check(b, where);
			for (size_t j = 0; j < b->size; j++) if (b->p[j] != 0xdd) sim_viol("write-after-free", "%s: block of %lu bytes at +%lu", where, (unsigned long)b->size, (unsigned long)j);
		}
		for (k = hslot(b->p); hix[k] != i + 1; k = (k + 1) & (HIX - 1));
		hix[k] = 0;
	}
	nblk = m.n; arena_top = m.top;
}
void heap_expect_live(long n, const char *where)
{
	heap_check(where);
	if (nlive != n) sim_viol(nlive > n ? "leak" : "over-free", "%s: %ld live heap blocks, expected %ld", where, nlive, n);
}


/* ---------------- simulated OS ---------------- */
int os_armed; long os_pagesize = 0; void (*os_yield_hook)(int);
#define MAXMAP 4096
static OsMap maps[MAXMAP]; static int nmaps;
static struct { int fd; int file; int used; } fds[64]; static int nfiles;
static uint64_t place[64]; static int nplace, placei;
static uintptr_t place_next;
#if UINTPTR_MAX > 0xffffffffu
#define PLACE_BASE 0x200000000ull
#else
#define PLACE_BASE 0x30000000u
#endif
void *sim_map_anon(uint64_t where, size_t len, int prot)
{
	void *m;
	int a = os_armed;
	if (where != (uintptr_t)where) return NULL;
	os_armed = 0;
	m = mmap((void *)(uintptr_t)where, len, prot, MAP_PRIVATE | MAP_ANONYMOUS | (where ? MAP_FIXED_NOREPLACE : 0), -1, 0);
	if (m != MAP_FAILED && where && m != (void *)(uintptr_t)where) { munmap(m, len); m = MAP_FAILED; }
	os_armed = a;
	return m == MAP_FAILED ? NULL : m;
}
void sim_unmap(void *p, size_t len) { int a = os_armed; os_armed = 0; munmap(p, len); os_armed = a; }
void sim_protect(void *p, size_t len, int prot) { int a = os_armed; os_armed = 0; if (mprotect(p, len, prot)) sim_harness_error("mprotect"); os_armed = a; }
/* the same pages executable at "at" and writable elsewhere */
void *sim_map_dual(void *at, size_t len, unsigned char **writable)
{
	int fd = memfd_create("dual", 0); void *x, *w;
	if (fd < 0 || ftruncate(fd, (off_t)len)) return NULL;
	x = mmap(at, len, PROT_READ | PROT_EXEC, MAP_SHARED | MAP_FIXED, fd, 0);
	w = mmap(NULL, len, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	close(fd);
	if (x == MAP_FAILED || w == MAP_FAILED) return NULL;
	*writable = w;
	return x;
}
OsMap *os_find(const void *p)
{
	for (int i = 0; i < nmaps; i++) if ((uintptr_t)p >= maps[i].addr && (uintptr_t)p < maps[i].addr + maps[i].len) return maps + i;
	return NULL;
}
/* ---------------- I-cache model ---------------- */
Range icache_ranges[256]; int icache_n;
void icache_reset(void) { icache_n = 0; }
/* qemu-user keeps its translation of code that is changed through another mapping until the page loses its execute
   permission: this is the instruction fetch that follows a flush (or any store, where the cache is coherent) */
extern int __real_mprotect(void *, size_t, int);
static void code_sync(uintptr_t from, uintptr_t to)
{
#if !defined __x86_64__ && !defined __i386__
	for (int i = 0; i < nmaps; i++) {
		uintptr_t a = from & ~(uintptr_t)4095, b = (to + 4095) & ~(uintptr_t)4095;
		if (maps[i].file < 0 || !(maps[i].prot & PROT_EXEC)) continue;
		if (a < maps[i].addr) a = maps[i].addr;
		if (b > maps[i].addr + maps[i].len) b = maps[i].addr + maps[i].len;
		if (a >= b) continue;
		__real_mprotect((void *)a, b - a, PROT_READ); __real_mprotect((void *)a, b - a, maps[i].prot);
	}
#endif
}
void sim_code_sync_all(void) { code_sync(0, UINTPTR_MAX & ~(uintptr_t)4095); }
void sim_cache_flush(void *from, void *to)
{
	if (icache_n < 256) { icache_ranges[icache_n].from = (uintptr_t)from; icache_ranges[icache_n].to = (uintptr_t)to; icache_n++; }
	else { if ((uintptr_t)from < icache_ranges[255].from) icache_ranges[255].from = (uintptr_t)from; if ((uintptr_t)to > icache_ranges[255].to) icache_ranges[255].to = (uintptr_t)to; }
	__builtin___clear_cache((char *)from, (char *)to);
	code_sync((uintptr_t)from, (uintptr_t)to);
}
int icache_flushed(uintptr_t a)
{
	/* A cache line (64 bytes) is flushed as a whole. */
	for (int i = 0; i < icache_n; i++) if ((a | 63) >= (icache_ranges[i].from & ~(uintptr_t)63) && a < ((icache_ranges[i].to + 63) & ~(uintptr_t)63)) return 1;
	return 0;
}
OsMap *os_map_n(int i) { return i < nmaps ? maps + i : NULL; }
int os_mapped(void) { return nmaps; }
int os_fds(void) { int n = 0; for (int i = 0; i < 64; i++) n += fds[i].used; return n; }
int os_prot_at(const void *p) { OsMap *m = os_find(p); return m ? m->prot : -1; }

/* The raw symbols take long offsets; off_t may be redefined to 64 bits by the toolchain. */
extern void *__real_mmap64(void *, size_t, int, int, int, off64_t);
#define real_mmap(a, l, p, f, fd) __real_mmap64(a, l, p, f, fd, (off64_t)0)
extern int __real_munmap(void *, size_t);
extern int __real_mprotect(void *, size_t, int);

extern int __real_posix_madvise(void *, size_t, int);
extern int __real_ftruncate(int, long);
extern int __real_close(int);
extern int __real_unlink(const char *);
extern long __real_sysconf(int);
extern char *__real_secure_getenv(const char *);
extern int __real_mkostemp(char *, int);
extern int __real_fchmod(int, mode_t);

void os_release_all(void)
{
	int a = os_armed; os_armed = 0;
	for (int i = 0; i < nmaps; i++) __real_munmap((void *)maps[i].addr, maps[i].len);
	for (int i = 0; i < 64; i++) if (fds[i].used) { __real_close(fds[i].fd); fds[i].used = 0; }
	nmaps = 0; os_armed = a;
}
void os_reset(void) { os_release_all(); nplace = placei = 0; place_next = PLACE_BASE; nfiles = 0; os_pagesize = 0; icache_n = 0; }
void os_place_list(const uint64_t *l, int n) { nplace = n > 64 ? 64 : n; memcpy(place, l, sizeof(uint64_t) * (size_t)nplace); placei = 0; }

static size_t pground(size_t n) { size_t pm = (size_t)(os_pagesize ? os_pagesize : 4096) - 1; return (n + pm) & ~pm; }
static void map_record(uintptr_t a, size_t len, int prot, int file)
{
	if (nmaps == MAXMAP) sim_harness_error("too many mappings");
	maps[nmaps].addr = a; maps[nmaps].len = len; maps[nmaps].prot = prot; maps[nmaps].file = file; nmaps++;
}
static void *do_mmap(void *addr, size_t len, int prot, int flags, int fd)
{
	void *m = MAP_FAILED; int i, file = -1;
	size_t rlen = pground(len);
	os_armed = 0;
	if (os_yield_hook) os_yield_hook(2);
	sim_ev(0x30000000u + (unsigned)len);
	if (fault_now(FK_MMAP) || !rlen) { os_armed = 1; errno = ENOMEM; return MAP_FAILED; }
	for (i = 0; i < 64; i++) if (fds[i].used && fds[i].fd == fd) file = fds[i].file;
	(void)addr;
	if (rlen > ((size_t)1 << 30)) { os_armed = 1; errno = ENOMEM; return MAP_FAILED; }
	if (placei < nplace) {
		uint64_t w = place[placei++];
		if ((uint64_t)(uintptr_t)(w + rlen - 1) == w + rlen - 1)
			m = real_mmap((void *)(uintptr_t)w, rlen, prot, flags | MAP_FIXED_NOREPLACE, fd);
		if (m != MAP_FAILED && m != (void *)(uintptr_t)w) { __real_munmap(m, rlen); m = MAP_FAILED; }
		if (m != MAP_FAILED) STAT(ST_PLACED_FAR);
	}
	for (i = 0; m == MAP_FAILED && i < 64; i++) {
		uintptr_t w;
		if (os_pagesize) place_next = (place_next + (uintptr_t)os_pagesize - 1) & ~((uintptr_t)os_pagesize - 1);
		w = place_next;
		place_next += rlen + 0x10000;
		m = real_mmap((void *)w, rlen, prot, flags | MAP_FIXED_NOREPLACE, fd);
		if (m != MAP_FAILED && m != (void *)w) { __real_munmap(m, rlen); m = MAP_FAILED; }
	}
	if (m == MAP_FAILED) sim_harness_error("cannot place a mapping of %lu bytes", (unsigned long)rlen);
	if ((flags & MAP_ANONYMOUS) && (prot & PROT_WRITE)) { /* fresh pages are zero, as the OS promises */ }
	map_record((uintptr_t)m, rlen, prot, file);
	os_armed = 1;
	return m;
}
void *__wrap_mmap(void *a, size_t l, int p, int f, int fd, long o) { if (!os_armed) return __real_mmap64(a, l, p, f, fd, (off64_t)o); return do_mmap(a, l, p, f, fd); }
void *__wrap_mmap64(void *a, size_t l, int p, int f, int fd, off64_t o) { if (!os_armed) return __real_mmap64(a, l, p, f, fd, o); return do_mmap(a, l, p, f, fd); }

/* split map records at [a, a+len) and return whether it was fully mapped */
static int map_isolate(uintptr_t a, size_t len)
{
	uintptr_t e = a + len, p = a;
	for (int i = 0; i < nmaps; i++) {
		OsMap m = maps[i];
		if (m.addr < a && m.addr + m.len > a) { maps[i].len = a - m.addr; map_record(a, m.addr + m.len - a, m.prot, m.file); }
	}
	for (int i = 0; i < nmaps; i++) {
		OsMap m = maps[i];
		if (m.addr < e && m.addr + m.len > e) { maps[i].len = e - m.addr; map_record(e, m.addr + m.len - e, m.prot, m.file); }
	}
	while (p < e) { OsMap *m = os_find((void *)p); if (!m) return 0; p = m->addr + m->len; }
	return 1;
}
int __wrap_munmap(void *a, size_t l)
{
	if (!os_armed) return __real_munmap(a, l);
	os_armed = 0;
	os_hook_addr = (uintptr_t)a; os_hook_len = l;
	if (os_yield_hook) os_yield_hook(3);
	sim_ev(0x31000000u + (unsigned)l);
	l = pground(l);
	if (!map_isolate((uintptr_t)a, l)) sim_viol("bad-munmap", "munmap of %lu bytes that are not all mapped by the library", (unsigned long)l);
	for (int i = 0; i < nmaps; ) {
		if (maps[i].addr >= (uintptr_t)a && maps[i].addr + maps[i].len <= (uintptr_t)a + l) maps[i] = maps[--nmaps]; else i++;
	}
	STAT(ST_CHUNK_RELEASE);
	__real_munmap(a, l);
	os_armed = 1;
	return 0;
}
int __wrap_mprotect(void *a, size_t l, int prot)
{
	int r;
	if (!os_armed) return __real_mprotect(a, l, prot);
	os_armed = 0;
	if (os_yield_hook) os_yield_hook(4);
	sim_ev(0x32000000u + (unsigned)prot);
	if (fault_now(FK_MPROTECT)) { sim_refused = 1; os_armed = 1; errno = ENOMEM; return -1; }
	l = pground(l);
	if ((uintptr_t)a & 4095) { os_armed = 1; errno = EINVAL; return -1; }
	if (!map_isolate((uintptr_t)a, l)) sim_viol("bad-mprotect", "mprotect of memory the library does not own");
	if ((prot & PROT_WRITE) && (prot & PROT_EXEC)) sim_viol("wx", "mprotect makes memory writable and executable");
	for (int i = 0; i < nmaps; i++) if (maps[i].addr >= (uintptr_t)a && maps[i].addr + maps[i].len <= (uintptr_t)a + l) maps[i].prot = prot;
	STAT(ST_WX_FLIPS);
	r = __real_mprotect(a, l, prot);
	if (r) sim_harness_error("real mprotect failed");
	os_armed = 1;
	return 0;
}
/* MADV_DONTNEED / MADV_FREE: the pages may be dropped at once. */
static int do_madvise(void *a, size_t l)
{
	uintptr_t s = (uintptr_t)a, pm = (uintptr_t)(os_pagesize ? os_pagesize : 4096) - 1; OsMap *m;
	os_armed = 0;
	if (fault_now(FK_MADVISE)) { os_armed = 1; errno = EAGAIN; return -1; }
	if (s & pm) { os_armed = 1; errno = EINVAL; return -1; }
	m = os_find(a);
	if (!m) sim_viol("bad-madvise", "advice for memory the library does not own");
	l = (l + pm) & ~pm; /* the kernel rounds up to whole pages */
	if (s + l > m->addr + m->len) sim_viol("bad-madvise", "advice for memory beyond the mapping");
	memset(a, 0, l);
	os_armed = 1;
	return 0;
}
int __wrap_madvise(void *a, size_t l, int adv) { if (!os_armed) return __real_madvise(a, l, adv); (void)adv; return do_madvise(a, l); }
int __wrap_posix_madvise(void *a, size_t l, int adv) { if (!os_armed) return __real_posix_madvise(a, l, adv); (void)adv; return do_madvise(a, l) ? errno : 0; }
static int new_file(void)
{
	for (int i = 0; i < 64; i++) if (!fds[i].used) {
		int fd = memfd_create("sim", 0);
		if (fd < 0) sim_harness_error("memfd");
		fds[i].used = 1; fds[i].fd = fd; fds[i].file = nfiles++;
		return fd;
	}
	sim_harness_error("too many files");
}
extern int __real_open(const char *, int, ...);
static int do_open(void) { int r; os_armed = 0; if (os_yield_hook) os_yield_hook(5); sim_ev(0x33); if (fault_now(FK_OPEN)) { os_armed = 1; errno = EOPNOTSUPP; return -1; } r = new_file(); os_armed = 1; return r; }
int __wrap_open(const char *n, int fl, ...) { va_list ap; int m; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); if (!os_armed) return __real_open(n, fl, m); return do_open(); }
extern int __real_open64(const char *, int, ...);
int __wrap_open64(const char *n, int fl, ...) { va_list ap; int m; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); if (!os_armed) return __real_open64(n, fl, m); return do_open(); }
static int do_mkostemp(char *t) { int r; (void)t; os_armed = 0; sim_ev(0x34); if (fault_now(FK_MKOSTEMP)) { os_armed = 1; errno = EACCES; return -1; } r = new_file(); os_armed = 1; return r; }
int __wrap_mkostemp(char *t, int f) { if (!os_armed) return __real_mkostemp(t, f); return do_mkostemp(t); }
extern int __real_mkostemp64(char *, int);
int __wrap_mkostemp64(char *t, int f) { if (!os_armed) return __real_mkostemp64(t, f); return do_mkostemp(t); }
int __wrap_unlink(const char *n) { if (!os_armed) return __real_unlink(n); if (fault_now(FK_UNLINK)) { errno = EROFS; return -1; } return 0; }
extern int __real_memfd_create(const char *, unsigned);
int __wrap_memfd_create(const char *n, unsigned f) { int r; if (!os_armed) return __real_memfd_create(n, f); os_armed = 0; if (fault_now(FK_MEMFD)) { os_armed = 1; errno = ENOSYS; return -1; } r = new_file(); os_armed = 1; return r; }
static int fd_known(int fd) { for (int i = 0; i < 64; i++) if (fds[i].used && fds[i].fd == fd) return i; return -1; }
int __wrap_ftruncate(int fd, long l)
{
	if (!os_armed) return __real_ftruncate(fd, l);
	if (fd_known(fd) < 0) sim_viol("bad-fd", "ftruncate of a closed or foreign descriptor");
	if (fault_now(FK_FTRUNCATE)) { errno = ENOSPC; return -1; }
	return __real_ftruncate(fd, (long)pground((size_t)l));
}
extern int __real_ftruncate64(int, off64_t);
int __wrap_ftruncate64(int fd, off64_t l)
{
	if (!os_armed) return __real_ftruncate64(fd, l);
	if (fd_known(fd) < 0) sim_viol("bad-fd", "ftruncate of a closed or foreign descriptor");
	if (fault_now(FK_FTRUNCATE)) { errno = ENOSPC; return -1; }
	return __real_ftruncate64(fd, (off64_t)pground((size_t)l));
}
int __wrap_close(int fd)
{
	int i;
	if (!os_armed) return __real_close(fd);
	i = fd_known(fd);
	if (i < 0) sim_viol("bad-fd", "close of a closed or foreign descriptor");
	fds[i].used = 0;
	return __real_close(fd);
}
int __wrap_fchmod(int fd, mode_t m) { if (!os_armed) return __real_fchmod(fd, m); return 0; }
long __wrap_sysconf(int n) { if (os_armed && n == _SC_PAGESIZE && os_pagesize) return os_pagesize; return __real_sysconf(n); }
char *__wrap_secure_getenv(const char *n) { if (!os_armed) return __real_secure_getenv(n); return NULL; }

/* ---------------- main ---------------- */
static const Prop *find_prop(const char *id) { for (const Prop *p = sim_props; p->id; p++) if (!strcmp(p->id, id)) return p; return NULL; }
static int progfd = -1;
/* static data of the library: every run starts as a new process */
extern unsigned char __start_simdata[] __attribute__((weak)), __stop_simdata[] __attribute__((weak));
extern unsigned char __start_simbss[] __attribute__((weak)), __stop_simbss[] __attribute__((weak));
static unsigned char *lib_snap[2];
static void lib_reset(void)
{
	unsigned char *s[2] = { __start_simdata, __start_simbss }; size_t n[2] = { (size_t)(__stop_simdata - __start_simdata), (size_t)(__stop_simbss - __start_simbss) };
	if (!(n[0] + n[1])) sim_harness_error("the library has no static data");
	for (int i = 0; i < 2; i++) {
		if (!n[i]) continue;
		if (!lib_snap[i]) { lib_snap[i] = malloc(n[i]); memcpy(lib_snap[i], s[i], n[i]); }
		memcpy(s[i], lib_snap[i], n[i]);
	}
}
static void run_one(const Prop *pr, Plan *p)
{
	lib_reset();
	cur_seed = p->seed; sim_hash = 0xcbf29ce484222325ull; sim_events = 0;
	sim_phase = "run"; sim_refused = 0;
	os_reset(); heap_reset(0xa5); faults_reset(); os_yield_hook = NULL; os_freed_hook = NULL; sim_heap_cookie = NULL;
	STAT(ST_RUNS);
	pr->exec(p);
	sim_phase = "end";
	os_armed = 0;
	os_release_all();
	sim_batch_hash = (sim_batch_hash ^ sim_hash) * 0x100000001b3ull;
}
static unsigned char altstack[65536];
int main(int argc, char **argv)
{
	const Prop *pr; Plan p; struct sigaction sa; int sigs[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP };
	stack_t ss;
	memset(&p, 0, sizeof p);
	if (argc < 4) { fprintf(stderr, "usage: sim PROP batch SEED0 COUNT | plan SEED | exec FILE | show FILE\n"); return 2; }
	pr = find_prop(argv[1]);
	if (!pr) { printf("UNSUPPORTED\n"); return 3; }
	cur_prop = pr->id;
	lib_reset();
	if (getenv("SIM_THOROUGH")) sim_thorough = 1;
	if (getenv("SIM_SHOW")) { sim_show = atoi(getenv("SIM_SHOW")) > 1 ? 2 : 1; setvbuf(stdout, NULL, _IONBF, 0); }
	memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, NULL);
	memset(&sa, 0, sizeof sa); sa.sa_sigaction = crash_handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESETHAND | SA_NODEFER;
	for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, NULL);
	if (!strcmp(argv[2], "plan")) {
		Rng r; p.seed = strtoull(argv[3], NULL, 10); r.s = p.seed * 0x2545f4914f6cdd1dull + 77;
		pr->gen(&p, &r); plan_print(&p, stdout); return 0;
	}
	if (!strcmp(argv[2], "exec")) {
		FILE *f = strcmp(argv[3], "-") ? fopen(argv[3], "r") : stdin;
		if (!f) return 2;
		for (;;) { /* several plans separated by "---" run one after another in this process */
			int more = plan_read(&p, f);
			run_one(pr, &p);
			printf("OK %llu %016llx %llu\n", (unsigned long long)p.seed, (unsigned long long)sim_hash, (unsigned long long)sim_events);
			fflush(stdout);
			if (!more) break;
		}
		if (f != stdin) fclose(f);
		return 0;
	}
	if (!strcmp(argv[2], "batch") && argc >= 5) {
		uint64_t s0 = strtoull(argv[3], NULL, 10), n = strtoull(argv[4], NULL, 10), i;
		in_batch = 1;
		if (argc > 5) progfd = open(argv[5], O_WRONLY | O_CREAT, 0600);
		for (i = 0; i < n; i++) {
			Rng r;
			uint64_t seed = s0 + i;
			if (progfd >= 0) { char b[32]; int k = snprintf(b, sizeof b, "%020llu\n", (unsigned long long)seed); if (pwrite(progfd, b, (size_t)k, 0) < 0) return 2; }
			plan_clear(&p); p.seed = seed; r.s = seed * 0x2545f4914f6cdd1dull + 77;
			cur_seed = seed;
			pr->gen(&p, &r);
			run_one(pr, &p);
		}
		printf("DONE %llu %016llx\n", (unsigned long long)n, (unsigned long long)sim_batch_hash);
		printf("STAT");
		for (i = 0; i < ST_COUNT; i++) printf(" %llu", (unsigned long long)sim_stat[i]);
		printf("\nSTATES %u", sset_n);
		for (i = 0; i < SSZ; i++) if (sset[i]) printf(" %llx", (unsigned long long)(sset[i] >> 16 & 0xffffffffffull));
		printf("\n");
		return 0;
	}
	return 2;
}
