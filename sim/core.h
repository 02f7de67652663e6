#ifndef SIM_CORE_H
#define SIM_CORE_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>

/* ---- deterministic PRNG (splitmix64) ---- */
typedef struct { uint64_t s; } Rng;
static inline uint64_t rnd(Rng *r)
{
	uint64_t z = (r->s += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static inline uint32_t rn(Rng *r, uint32_t n) { return n ? (uint32_t)((rnd(r) >> 16) % n) : 0; }
static inline int chance(Rng *r, uint32_t pct) { return rn(r, 100) < pct; }

/* ---- plan: everything one run does, as removable lines ---- */
#define PLAN_ARGS 9
typedef struct { char k; int op; int64_t a[PLAN_ARGS]; } Line;
/* k: 'P' parameter (op=id, a[0]=value), 'O' program op, 'F' fault, 'C' cut, 'A' history action, 'S' schedule decision */
typedef struct { Line *l; int n, cap; uint64_t seed; } Plan;
Line *plan_add(Plan *p, int k, int op, int nargs, ...); /* int64_t args */
void plan_clear(Plan *p);
int64_t plan_par(const Plan *p, int id, int64_t dflt);
void plan_print(const Plan *p, FILE *f);
int plan_read(Plan *p, FILE *f);

/* ---- event log hash ---- */
extern uint64_t sim_hash, sim_events;
void sim_ev(uint64_t v);
extern uint64_t sim_batch_hash;

/* ---- violations ---- */
void sim_viol(const char *cls, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_harness_error(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
extern int sim_refused;
extern const char *sim_phase; /* shown with crashes */
extern int sim_expect_crash_ok;

/* ---- statistics ---- */
enum { ST_RUNS, ST_PROGRAMS, ST_OPS, ST_EXECS, ST_MALLOCS, ST_FAULT_MALLOC, ST_FAULT_MMAP, ST_FAULT_MPROTECT, ST_FAULT_FTRUNCATE,
	ST_FAULT_OPEN, ST_FAULT_MKOSTEMP, ST_FAULT_UNLINK, ST_FAULT_MEMFD, ST_FAULT_MADVISE, ST_FAULT_STREAM, ST_FAULT_MUNMAP,
	ST_CRASH_RESTART, ST_SNAPSHOT, ST_TRUNC, ST_FOREIGN, ST_PATCH_CONST, ST_PATCH_JUMP, ST_PATCH_BUF, ST_ACTIONS,
	ST_FAIL_SEEN, ST_GEN_FAIL, ST_GEN_OK_FAULT, ST_RETRY_OK, ST_PLACED_FAR, ST_BUF_SMALL, ST_BUF_OK, ST_SWITCH, ST_STEPS, ST_RACECHK,
	ST_FRAGMENTS, ST_SKIPPED, ST_CHUNK_RELEASE, ST_WX_FLIPS, ST_STALE_LINES, ST_BADRET, ST_UNSUPP, ST_COUNT };
extern uint64_t sim_stat[ST_COUNT];
#define STAT(x) (sim_stat[x]++)
#define STATN(x, n) (sim_stat[x] += (uint64_t)(n))
/* distinct-state fingerprints (bounded set), measure of reach */
void sim_state(uint64_t h);

/* ---- faults ---- */
enum { FK_MALLOC, FK_MMAP, FK_MPROTECT, FK_FTRUNCATE, FK_OPEN, FK_MKOSTEMP, FK_UNLINK, FK_MEMFD, FK_MADVISE, FK_STREAM, FK_MUNMAP, FK_COUNT };
extern const char *fk_names[FK_COUNT];
extern uint64_t fk_calls[FK_COUNT];   /* calls seen since faults_reset */
extern uint64_t fk_fired[FK_COUNT];   /* faults delivered since faults_reset */
extern uint64_t fk_fired_total;
void faults_reset(void);                       /* forget all and zero the counters */
void faults_add(int kind, int64_t nth, int64_t count); /* calls nth..nth+count-1 fail (1-based) */
int fault_now(int kind);                       /* count a call, say whether it fails */

/* ---- simulated heap ---- */
extern void *sim_heap_cookie;   /* allocator data expected in every call (NULL accepted too) */
extern int sim_heap_guard;      /* 1: each block ends at an unmapped page */
void heap_reset(int fill);
void heap_mode(int fill, uint64_t salt);
long heap_live(void);           /* live blocks */
uint64_t heap_live_bytes(void);
void heap_check(const char *where); /* red zones and poison of freed blocks */
typedef struct { int n; size_t top; } HeapMark;
HeapMark heap_mark(void);
void heap_rollback(HeapMark m, const char *where);
void heap_expect_live(long n, const char *where);
extern uint64_t heap_total;

/* ---- simulated OS ---- */
extern int os_armed;            /* wrappers act only while sljit runs in a simulated run */
extern long os_pagesize;
enum { PLACE_FIXED, PLACE_LIST, PLACE_REUSE };
void os_reset(void);
void os_place_list(const uint64_t *list, int n);
int os_mapped(void);            /* live simulated mappings */
int os_fds(void);               /* live simulated fds */
void os_check_wx(const char *where);
int os_prot_at(const void *p);  /* protection or -1 */
typedef struct { uintptr_t addr; size_t len; int prot; int file; } OsMap;
OsMap *os_find(const void *p);
OsMap *os_map_n(int i);
void os_release_all(void);      /* unmap everything left (between runs) */
extern int os_noexec_rw_only;   /* statistic: map requests never both W and X */
extern void (*os_yield_hook)(int what);
extern uintptr_t os_hook_addr; extern size_t os_hook_len;
extern void (*os_freed_hook)(void *p, size_t n);

/* I-cache model */
void icache_reset(void);
void sim_code_sync_all(void);
typedef struct { uintptr_t from, to; } Range;
extern Range icache_ranges[256]; extern int icache_n;
int icache_flushed(uintptr_t a);

/* ---- properties ---- */
typedef struct { const char *id; void (*gen)(Plan *p, Rng *r); void (*exec)(Plan *p); } Prop;
extern const Prop sim_props[];
extern int sim_thorough, sim_show;

/* exec context shared */
void *sim_map_anon(uint64_t where, size_t len, int prot); /* raw mapping, outside the simulated OS; NULL if not available */
void sim_unmap(void *p, size_t len);
#endif
