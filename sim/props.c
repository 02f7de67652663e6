#define _GNU_SOURCE
#include "props.h"

/* ============ C01: failed allocations ============ */
static void c01_gen(Plan *p, Rng *r)
{
	int n, i, nops = 2 + (int)rn(r, chance(r, 20) ? 160 : 45);
	prog_gen(p, r, nops, chance(r, 30) ? FLAVOUR_PATCH : FLAVOUR_ALL);
	prog_pressure(p, r);
	n = 2 + (int)rn(r, 7);
	for (i = 0; i < n; i++) {
		int k = chance(r, 72) ? FK_MALLOC : chance(r, 60) ? FK_MMAP : chance(r, 50) ? FK_FTRUNCATE : chance(r, 50) ? FK_OPEN : FK_MKOSTEMP;
		plan_add(p, 'F', k, 3, (int64_t)(rnd(r) >> 3), (int64_t)(chance(r, 70) ? 1 : chance(r, 50) ? 2 + rn(r, 3) : 1000000), (int64_t)(i && chance(r, 25)));
	}
	if (chance(r, 30)) plan_add(p, 'E', 0, 1, (int64_t)(rnd(r) >> 3));
}
/* the caller's own memory runs out: it tells the compiler so between two calls */
static int c01_report_at;
static void c01_tick(Em *em)
{
	if (em->nticks != c01_report_at || em->err) return;
	sljit_set_compiler_memory_error(em->c);
	if (sljit_get_compiler_error(em->c) != SLJIT_ERR_ALLOC_FAILED) sim_viol("error-lost", "a reported memory error became error %d", sljit_get_compiler_error(em->c));
	em->err = SLJIT_ERR_ALLOC_FAILED;
	STAT(ST_FAIL_SEEN);
}
static void c01_attempt(Plan *p, Twin *t)
{
	BuildOpt o; Code c;
	memset(&o, 0, sizeof o);
	STAT(ST_ACTIONS);
	if (c01_report_at) o.tick = c01_tick;
	if (build(p, &c, &o)) {
		uint64_t h;
		code_check(&c, "under faults");
		h = prog_run(p, c.code);
		if (h != t->hash) sim_viol("wrong-code", "code generated in spite of a failed allocation computes something else");
		sim_ev(h);
		sljit_free_code(c.code, NULL);
	}
	sim_ev((uint64_t)o.error * 16 + (uint64_t)o.stage);
	sim_state((uint64_t)o.stage * 7919 + (uint64_t)o.error * 104729 + fk_calls[FK_MALLOC] * 31 + prog_kinds_used * 3);
	heap_expect_live(0, "after a failed compilation");
}
static void c01_exec(Plan *p)
{
	Twin t; BuildOpt o; Code c; int i, armed = 0; uint64_t calls[FK_COUNT];
	static Em em;
	os_armed = 1; memset(&o, 0, sizeof o);
	prog_kinds_used = 0; c01_report_at = 0; o.em = &em;
	twin_make(p, &t, &o);
	memcpy(calls, fk_calls, sizeof calls);
	world_clean("twin");
	faults_reset();
	for (i = 0; i < p->n; i++) {
		Line *l = p->l + i;
		if (l->k == 'E') { /* alone, without other faults */
			if (armed) c01_attempt(p, &t);
			heap_reset(0x5a); faults_reset(); armed = 0;
			c01_report_at = 1 + (int)((uint64_t)l->a[0] % (unsigned)em.nticks);
			c01_attempt(p, &t);
			c01_report_at = 0; heap_reset(0x5a);
			continue;
		}
		if (l->k != 'F' || l->op < 0 || l->op >= FK_COUNT) continue;
		if (armed && !l->a[2]) { c01_attempt(p, &t); heap_reset(0x5a); faults_reset(); }
		faults_add(l->op, 1 + (int64_t)((uint64_t)l->a[0] % (calls[l->op] ? calls[l->op] + (l->op == FK_MALLOC && calls[l->op] > 4) : 1)), l->a[1]);
		armed = 1;
	}
	if (armed) c01_attempt(p, &t);
	faults_reset();
	world_clean("after the faults");
	memset(&o, 0, sizeof o);
	if (!build(p, &c, &o)) sim_viol("no-recovery", "compilation fails with error %d although memory is available again", o.error);
	STAT(ST_RETRY_OK);
	code_same(&t.code, &c, "retry");
	if (c.code == t.code.code && memcmp(t.bytes, CODE_PTR(c.code), t.nbytes)) sim_viol("wrong-code", "the retry generated different bytes");
	if (prog_run(p, c.code) != t.hash) sim_viol("wrong-code", "the retry computes something else");
	sljit_free_code(c.code, NULL);
	world_clean("retry");
	twin_free(&t);
}

/* ============ C02: executable memory allocator ============ */
enum { A2_ALLOC, A2_FREE, A2_UNUSED, A2_BULKFREE, A2_VERIFY };
static void c02_gen(Plan *p, Rng *r)
{
	int n = 4 + (int)rn(r, chance(r, 25) ? 220 : 60), i, k;
	int style = (int)rn(r, 4);
	for (i = 0; i < n; i++) {
		uint32_t x = rn(r, 100);
		if (x < 55) {
			int64_t sz;
			switch (style == 3 ? rn(r, 2) * 4 : rn(r, 6)) {
			case 0: sz = 1 + rn(r, 80); break;
			case 1: sz = 1 + rn(r, 1000); break;
			case 2: sz = 1000 + rn(r, 20000); break;
			case 3: sz = 65536 - (int64_t)rn(r, 300); break;
			case 4: sz = 20000 + rn(r, 45000); break;
			default: sz = 65000 + rn(r, 200000); break;
			}
			plan_add(p, 'A', A2_ALLOC, 1, sz);
		} else if (x < 90) plan_add(p, 'A', A2_FREE, 1, (int64_t)(rnd(r) >> 3));
		else if (x < 94) plan_add(p, 'A', A2_UNUSED, 0);
		else if (x < 97) plan_add(p, 'A', A2_BULKFREE, 2, (int64_t)(rnd(r) >> 3), (int64_t)rn(r, 4));
		else plan_add(p, 'A', A2_VERIFY, 0);
	}
	k = chance(r, 75) ? 1 + (int)rn(r, 6) : 0;
	for (i = 0; i < k; i++) {
		static const int fk[] = { FK_MMAP, FK_MMAP, FK_FTRUNCATE, FK_OPEN, FK_MKOSTEMP, FK_UNLINK, FK_MPROTECT, FK_MEMFD };
		plan_add(p, 'F', fk[rn(r, 8)], 2, (int64_t)(1 + rn(r, 1 + (uint32_t)n / 3)), (int64_t)(chance(r, 60) ? 1 : 1 + rn(r, 6)));
	}
	plan_add(p, 'P', PA_MODE, 1, (int64_t)rn(r, 3)); /* placement: growing, adjacent, shuffled */
	plan_add(p, 'P', PA_K, 1, (int64_t)rn(r, 1 << 20));
}
typedef struct { unsigned char *rw, *rx; size_t size; uint32_t tag; int live; } XBlk;
static XBlk xb[1024]; static int nxb;
#define XB_MAX (1u << 20)
static unsigned char xb_pat[XB_MAX + 8192];
static const unsigned char *xb_expect(const XBlk *b) { return xb_pat + (b->tag >> 8) % 8192; }
static void xb_init(void) { Rng r; r.s = 99; if (!xb_pat[0]) for (size_t i = 0; i < sizeof xb_pat; i++) xb_pat[i] = (unsigned char)(rnd(&r) | (i == 0)); }
static void xb_fill(XBlk *b) { memcpy(b->rw, xb_expect(b), b->size < XB_MAX ? b->size : XB_MAX); }
static void xb_verify(XBlk *b, const char *where)
{
	size_t n = b->size < XB_MAX ? b->size : XB_MAX, i; const unsigned char *e = xb_expect(b);
	if (!memcmp(b->rw, e, n) && (b->rw == b->rx || !memcmp(b->rx, e, n))) return;
	for (i = 0; b->rw[i] == e[i] && b->rx[i] == e[i]; i++);
	sim_viol("block-damaged", "%s: byte %lu of a live %lu byte block changed", where, (unsigned long)i, (unsigned long)b->size);
}
static void xb_range(unsigned char *p, size_t size, int need, const char *what)
{
	size_t i = 0;
	while (i < size) {
		OsMap *m = os_find(p + i);
		if (!m) sim_viol("block-unmapped", "%s address of a %lu byte block is not mapped at +%lu", what, (unsigned long)size, (unsigned long)i);
		if ((m->prot & need) != need) sim_viol("block-protection", "%s address of a block has protection %d", what, m->prot);
		i = m->addr + m->len - (uintptr_t)p;
	}
}
/* the i-th placement request of a run */
static void c02_places(Plan *p)
{
	uint64_t pl[64]; int i, mode = (int)plan_par(p, PA_MODE, 0); Rng r; r.s = (uint64_t)plan_par(p, PA_K, 1);
	uint64_t base = sizeof(void *) == 8 ? 0x300000000ull : 0x38000000u;
	if (mode == 0) return;
	for (i = 0; i < 64; i++) {
		if (mode == 1) pl[i] = base + (uint64_t)i * 0x10000; /* next to each other */
		else pl[i] = base + (uint64_t)rn(&r, 200) * 0x10000;
	}
	os_place_list(pl, 64);
}
/* the W^X allocator decides once whether the system allows it; a refused probe turns it off */
#define wx_blocked (ALLOC_WX && fk_fired[FK_MPROTECT])
static void c02_exec(Plan *p)
{
	int i, j; uint64_t seen = 0;
	os_armed = 1; nxb = 0; xb_init();
	faults_reset();
	c02_places(p);
	for (i = 0; i < p->n; i++) if (p->l[i].k == 'F') faults_add(p->l[i].op, p->l[i].a[0], p->l[i].a[1]);
	for (i = 0; i < p->n; i++) {
		Line *l = p->l + i; XBlk *b; uint64_t fired;
		if (l->k != 'A') continue;
		STAT(ST_ACTIONS);
		switch (l->op) {
		case A2_ALLOC: {
			unsigned char *q; size_t sz = (size_t)l->a[0];
			if (nxb >= 1000 || sz == 0 || sz > (1u << 26)) break;
			fired = fk_fired_total;
			sim_phase = "malloc_exec";
			q = sljit_malloc_exec(sz);
			sim_ev(q ? (uint64_t)(uintptr_t)q : 1);
			if (!q) {
				STAT(ST_FAIL_SEEN);
				if (fk_fired_total == fired && !wx_blocked) sim_viol("spurious-null", "allocation of %lu bytes failed though the system refused nothing", (unsigned long)sz);
				break;
			}
			b = xb + nxb++;
			b->rw = q; b->rx = q + EXOFF(q); b->size = sz; b->tag = (uint32_t)i * 2654435761u; b->live = 1;
			if ((uintptr_t)q & (sizeof(sljit_uw) - 1)) sim_viol("misaligned", "block at %p", (void *)q);
			xb_range(b->rw, sz, 2, "writable"); xb_range(b->rx, sz, ALLOC_WX ? 0 : 4, "executable");
			if (os_find(b->rw) && os_find(b->rx) && ALLOC_PROT && os_find(b->rw)->file != os_find(b->rx)->file) sim_viol("block-mapping", "the two addresses of a block belong to different files");
			for (j = 0; j < nxb - 1; j++) if (xb[j].live) {
				if (b->rw < xb[j].rw + xb[j].size && xb[j].rw < b->rw + sz) sim_viol("overlap", "two live blocks overlap");
				if (b->rx < xb[j].rx + xb[j].size && xb[j].rx < b->rx + sz) sim_viol("overlap", "two live blocks overlap (executable side)");
			}
			xb_fill(b);
			break; }
		case A2_FREE: case A2_BULKFREE: {
			int n = 0, k, cnt = l->op == A2_FREE ? 1 : 1 << (l->a[1] & 3);
			for (; cnt > 0; cnt--) {
				for (j = 0, n = 0; j < nxb; j++) n += xb[j].live;
				if (!n) break;
				k = (int)((uint64_t)l->a[0] % (unsigned)n);
				for (j = 0; j < nxb; j++) if (xb[j].live && k-- == 0) break;
				xb_verify(xb + j, "before free");
				xb[j].live = 0;
				sim_phase = "free_exec";
				sljit_free_exec(xb[j].rx);
				sim_ev((uint64_t)j);
			}
			break; }
		case A2_UNUSED: sim_phase = "free_unused"; sljit_free_unused_memory_exec(); break;
		default: for (j = 0; j < nxb; j++) if (xb[j].live) xb_verify(xb + j, "periodic"); break;
		}
		sim_phase = "check";
		{ int n = 0; uint64_t h = 0; for (j = 0; j < nxb; j++) if (xb[j].live) { n++; h = h * 31 + ((uintptr_t)xb[j].rw & 0xfffff); } sim_state(h * 64 + (uint64_t)os_mapped()); seen = h; }
		if ((i & 7) == 0) for (j = 0; j < nxb; j++) if (xb[j].live) xb_verify(xb + j, "after an operation");
		/* live blocks stay mapped whatever happened */
		for (j = 0; j < nxb; j++) if (xb[j].live && (!os_find(xb[j].rw) || !os_find(xb[j].rx + xb[j].size - 1))) sim_viol("block-unmapped", "a live block lost its mapping");
	}
	sim_ev(seen);
	faults_reset();
	for (j = 0; j < nxb; j++) if (xb[j].live) { xb_verify(xb + j, "final"); sim_phase = "free_exec"; sljit_free_exec(xb[j].rx); xb[j].live = 0;
		for (i = j + 1; i < nxb; i++) if (xb[i].live && (i - j) < 6) xb_verify(xb + i, "final free"); }
	world_clean("allocator");
}

/* ============ C04: serialize, crash, restart ============ */
enum { CUT_RESTART, CUT_KEEP, CUT_FAILDES, CUT_FAILSER, CUT_DOUBLE };
static void c04_gen(Plan *p, Rng *r)
{
	int n, i, nops = 2 + (int)rn(r, chance(r, 20) ? 140 : 40);
	prog_gen(p, r, nops, chance(r, 40) ? FLAVOUR_PATCH : chance(r, 30) ? FLAVOUR_FAR : FLAVOUR_ALL);
	prog_pressure(p, r);
	n = 1 + (int)rn(r, 6);
	for (i = 0; i < n; i++) {
		uint32_t x = rn(r, 100);
		plan_add(p, 'C', x < 60 ? CUT_RESTART : x < 70 ? CUT_KEEP : x < 85 ? CUT_FAILDES : x < 93 ? CUT_FAILSER : CUT_DOUBLE, 2, (int64_t)(rnd(r) >> 3), (int64_t)rn(r, 12));
	}
	if (chance(r, 12)) plan_add(p, 'P', PA_FILL, 1, (int64_t)(1 + rn(r, 3))); /* also cut right before sljit_generate_code */
}
typedef struct { Plan *p; int total; int ncuts; } C04;
static unsigned char *ro_copy(const void *src, size_t size, void **base, size_t *len)
{
	/* a read-only copy that ends at an unmapped page */
	size_t pg = 65536, l = (size + pg - 1) / pg * pg;
	unsigned char *m = sim_map_anon(0, l + pg, 0);
	if (!m) sim_harness_error("no memory for a guarded copy");
	sim_protect(m, l, 3);
	memcpy(m + l - size, src, size);
	sim_protect(m, l, 1);
	*base = m; *len = l + pg;
	return m + l - size;
}
static void c04_crash(Em *em, int kind, int64_t arg)
{
	sljit_uw size = 0, size2; sljit_uw *buf; void *base; size_t len; unsigned char *cp; struct sljit_compiler *c, *c2; long live; int tries;
	const char *ph = sim_phase;
	int nl = 0, nj = 0, nc = 0; struct sljit_label *l; struct sljit_jump *j; struct sljit_const *k;
	if (em->err) return;
	live = heap_live();
	if (kind == CUT_FAILSER) {
		uint64_t base_calls;
		sljit_uw size0 = 0; sljit_uw *buf0, *cp0;
		sim_phase = "serialize";
		buf0 = cp0 = sljit_serialize_compiler(em->c, 0, &size0);
		if (!buf0) sim_viol("serialize-failed", "sljit_serialize_compiler failed (compiler error %d)", sljit_get_compiler_error(em->c));
		live = heap_live();
		sim_phase = "serialize-oom";
		base_calls = fk_calls[FK_MALLOC];
		faults_add(FK_MALLOC, (int64_t)base_calls + 1, 1);
		size = 123;
		buf = sljit_serialize_compiler(em->c, 0, &size);
		if (buf && fk_fired[FK_MALLOC]) sim_viol("serialize-oom", "serialization succeeded although its allocation failed");
		if (!buf && sljit_get_compiler_error(em->c) != SLJIT_SUCCESS && sljit_get_compiler_error(em->c) != SLJIT_ERR_ALLOC_FAILED)
			sim_viol("serialize-disturbs", "a failed serialization set compiler error %d", sljit_get_compiler_error(em->c));
		if (buf) sim_free(buf, NULL);
		if (heap_live() != live) sim_viol("leak", "a failed serialization leaked");
		if (!buf && size != 0 && size != 123) sim_viol("serialize-oom", "a failed serialization reports %lu bytes", (unsigned long)size);
		faults_reset();
		if (sljit_get_compiler_error(em->c) == SLJIT_ERR_ALLOC_FAILED) {
			/* sticky as for every other call: only freeing it is allowed now; go on with a compiler restored from
			   what was saved just before the failure */
			size2 = 77;
			if (sljit_serialize_compiler(em->c, 0, &size2) != NULL) sim_viol("serialize-oom", "serialization of a failed compiler succeeded");
			if (size2 == 77) size2 = 0;
			sljit_free_compiler(em->c);
			em->nam = 0; em->c = sljit_deserialize_compiler((sljit_uw *)(void *)cp0, size0, 0, sim_heap_cookie);
			if (!em->c) sim_viol("deserialize-failed", "valid buffer of %lu bytes rejected", (unsigned long)size0);
			sim_free(buf0, NULL);
		} else sim_free(buf0, NULL);
		sim_phase = ph;
		return;
	}
	sim_phase = "serialize";
	buf = sljit_serialize_compiler(em->c, 0, kind == CUT_RESTART && (arg & 8) ? &size : &size);
	if (!buf) sim_viol("serialize-failed", "sljit_serialize_compiler failed (compiler error %d)", sljit_get_compiler_error(em->c));
	if (heap_live() != live + 1) sim_viol("leak", "serialization must allocate exactly the buffer");
	if (size % sizeof(sljit_uw)) sim_viol("serialize-size", "size %lu is not a multiple of the word", (unsigned long)size);
	STAT(ST_SNAPSHOT);
	cp = ro_copy(buf, size, &base, &len);
	for (l = sljit_get_first_label(em->c); l; l = sljit_get_next_label(l)) nl++;
	for (j = sljit_get_first_jump(em->c); j; j = sljit_get_next_jump(j)) nj++;
	for (k = sljit_get_first_const(em->c); k; k = sljit_get_next_const(k)) nc++;
	sim_free(buf, NULL);
	sim_ev(size); sim_state((uint64_t)size * 131 + (uint64_t)nl * 7 + (uint64_t)nj * 3 + (uint64_t)nc);
	if (kind == CUT_RESTART || kind == CUT_DOUBLE) {
		/* the crash: nothing but the buffer survives */
		sljit_free_compiler(em->c);
		em->c = NULL;
		live = heap_live();
		if (live != 0) sim_viol("leak", "%ld blocks outlive the compiler", live);
		heap_check("crash");
		heap_reset(0x3c + (int)(arg & 3) * 17);
		STAT(ST_CRASH_RESTART);
		live = 0;
	}
	sim_phase = "deserialize";
	if (kind == CUT_FAILDES || (kind == CUT_RESTART && (arg & 4))) {
		/* restart attempts that run out of memory at every point in turn */
		for (tries = 1; tries < 400; tries++) {
			uint64_t f0; faults_reset(); faults_add(FK_MALLOC, tries, 1); f0 = fk_fired[FK_MALLOC];
			c = sljit_deserialize_compiler((sljit_uw *)(void *)cp, size, 0, sim_heap_cookie);
			if (fk_fired[FK_MALLOC] == f0) { if (!c) sim_viol("deserialize-failed", "valid buffer of %lu bytes rejected", (unsigned long)size); sljit_free_compiler(c); break; }
			if (c) sim_viol("deserialize-oom", "deserialization succeeded although allocation %d failed", tries);
			if (heap_live() != live) sim_viol("leak", "failed deserialization leaked %ld blocks", heap_live() - live);
			heap_check("failed deserialization");
		}
		faults_reset();
		if (heap_live() != live) sim_viol("leak", "deserialization and free leaked %ld blocks", heap_live() - live);
	}
	if (kind == CUT_FAILDES) { sim_unmap(base, len); sim_phase = ph; return; }
	c = sljit_deserialize_compiler((sljit_uw *)(void *)cp, size, 0, sim_heap_cookie);
	if (!c) sim_viol("deserialize-failed", "valid buffer of %lu bytes rejected", (unsigned long)size);
	{
		int nl2 = 0, nj2 = 0, nc2 = 0;
		for (l = sljit_get_first_label(c); l; l = sljit_get_next_label(l)) { if ((int)sljit_get_label_index(l) != nl2) sim_viol("enumeration", "label %d has index %d", nl2, (int)sljit_get_label_index(l)); nl2++; }
		for (j = sljit_get_first_jump(c); j; j = sljit_get_next_jump(j)) nj2++;
		for (k = sljit_get_first_const(c); k; k = sljit_get_next_const(k)) nc2++;
		if (nl2 != nl || nj2 != nj || nc2 != nc) sim_viol("enumeration", "%d/%d/%d labels/jumps/constants restored of %d/%d/%d", nl2, nj2, nc2, nl, nj, nc);
	}
	if (sljit_get_compiler_error(c)) sim_viol("deserialize-error", "restored compiler has error %d", sljit_get_compiler_error(c));
	if (kind == CUT_KEEP) {
		/* jump targets of the copy must agree with those of the original */
		struct sljit_jump *a = sljit_get_first_jump(em->c), *b = sljit_get_first_jump(c);
		int n = 0;
		for (; a && b; a = sljit_get_next_jump(a), b = sljit_get_next_jump(b), n++) {
			if (!sljit_jump_has_label(a) != !sljit_jump_has_label(b) || !sljit_jump_has_target(a) != !sljit_jump_has_target(b) || !sljit_jump_is_mov_addr(a) != !sljit_jump_is_mov_addr(b)) sim_viol("jump-restored", "jump %d changed its kind", n);
			if (sljit_jump_has_label(a) && sljit_get_label_index(sljit_jump_get_label(a)) != sljit_get_label_index(sljit_jump_get_label(b))) sim_viol("jump-restored", "jump %d has another label", n);
			if (sljit_jump_has_target(a) && sljit_jump_get_target(a) != sljit_jump_get_target(b)) sim_viol("jump-restored", "jump %d has another target", n);
		}
		sljit_free_compiler(c);
		if (heap_live() != live) sim_viol("leak", "restored compiler leaked %ld blocks", heap_live() - live);
	} else if (kind == CUT_DOUBLE) {
		/* save and restore again before going on */
		buf = sljit_serialize_compiler(c, 0, &size2);
		if (!buf) sim_viol("serialize-failed", "second serialization failed");
		c2 = sljit_deserialize_compiler(buf, size2, 0, sim_heap_cookie);
		if (!c2) sim_viol("deserialize-failed", "second generation buffer rejected");
		sljit_free_compiler(c); sim_free(buf, NULL);
		em->nam = 0, em->c = c2;
	} else { em->nam = 0; em->c = c; }
	sim_unmap(base, len);
	sim_phase = ph;
}
static void c04_tick(Em *em)
{
	C04 *s = em->user; int i;
	for (i = 0; i < s->p->n; i++) {
		Line *l = s->p->l + i;
		if (l->k == 'C' && 1 + (int)((uint64_t)l->a[0] % (unsigned)s->total) == em->nticks) { s->ncuts++; c04_crash(em, l->op, l->a[1]); }
	}
}
static int tick_total;
static void count_tick(Em *em) { tick_total = em->nticks; }
static void c04_exec(Plan *p)
{
	Twin t; BuildOpt o; Code c; C04 s; uint64_t h;
	os_armed = 1; memset(&o, 0, sizeof o);
	o.tick = count_tick; tick_total = 1;
	twin_make(p, &t, &o);
	world_clean("twin");
	memset(&o, 0, sizeof o); memset(&s, 0, sizeof s);
	s.p = p; s.total = tick_total;
	o.tick = c04_tick; o.user = &s;
	faults_reset();
	if (!build(p, &c, &o)) sim_viol("resume-failed", "the resumed compilation failed with error %d", o.error);
	code_check(&c, "resumed");
	code_same(&t.code, &c, "resumed");
	h = prog_run(p, c.code);
	if (h != t.hash) sim_viol("wrong-code", "the resumed compilation computes something else");
	if (c.code == t.code.code && memcmp(t.bytes, CODE_PTR(c.code), t.nbytes)) sim_viol("wrong-bytes", "the resumed compilation generated other instructions");
	sljit_free_code(c.code, NULL);
	world_clean("resumed");
	twin_free(&t);
}

/* ============ C05: torn and foreign buffers ============ */
static void c05_gen(Plan *p, Rng *r)
{
	prog_gen(p, r, 1 + (int)rn(r, chance(r, 15) ? 90 : 25), chance(r, 50) ? FLAVOUR_PATCH : FLAVOUR_ALL);
	prog_pressure(p, r);
	for (int i = 0, n = 1 + (int)rn(r, 3); i < n; i++) plan_add(p, 'C', 0, 3, (int64_t)(rnd(r) >> 3), (int64_t)(rnd(r) >> 3), (int64_t)rn(r, 4));
}
static void c05_reject(unsigned char *src, size_t size, const char *cls, const char *what, uint64_t arg)
{
	static unsigned char *area; static size_t alen; unsigned char *cp; struct sljit_compiler *c; long live = heap_live(); HeapMark hm = heap_mark();
	/* the read-only copy ends at an unmapped page */
	if (!area || alen < size) {
		if (area) sim_unmap(area, alen + 65536);
		alen = (size + 65535 + 65536 * 4) & ~(size_t)65535;
		area = sim_map_anon(0, alen + 65536, 0);
		if (!area) sim_harness_error("no memory for a guarded copy");
	}
	{ size_t need = (size + 65535) & ~(size_t)65535; if (!need) need = 65536;
	sim_protect(area + alen - need, need, 3);
	cp = area + alen - size;
	if (size) memcpy(cp, src, size);
	sim_protect(area + alen - need, need, 1); }
	sim_phase = cls;
	c = sljit_deserialize_compiler((sljit_uw *)(void *)cp, size, 0, sim_heap_cookie);
	if (c) sim_viol(cls, "%s (%llu) was accepted", what, (unsigned long long)arg);
	if (heap_live() != live) sim_viol("leak", "%s: rejecting leaked %ld blocks", what, heap_live() - live);
	heap_rollback(hm, what);
	STAT(cls[0] == 't' ? ST_TRUNC : ST_FOREIGN);
}
static void c05_tick(Em *em)
{
	C04 *s = em->user; int i;
	for (i = 0; i < s->p->n; i++) {
		Line *l = s->p->l + i; sljit_uw size, n, step; unsigned char *copy; sljit_uw *buf; struct sljit_compiler *c; long live;
		if (l->k != 'C' || 1 + (int)((uint64_t)l->a[0] % (unsigned)s->total) != em->nticks) continue;
		sim_phase = "serialize";
		buf = sljit_serialize_compiler(em->c, 0, &size);
		if (!buf) sim_viol("serialize-failed", "sljit_serialize_compiler failed");
		copy = malloc(size + 64); memcpy(copy, buf, size);
		live = heap_live();
		STAT(ST_SNAPSHOT);
		/* torn at word boundaries: the prefix of a write that was interrupted */
		step = size / sizeof(sljit_uw) > 160 ? sizeof(sljit_uw) * (1 + size / sizeof(sljit_uw) / 130) : sizeof(sljit_uw);
		for (n = 0; n < size; n += (n < 160 || n + 24 * sizeof(sljit_uw) > size) ? sizeof(sljit_uw) : step) {
			c05_reject(copy, n, "torn-accepted", "a prefix", n);
			sim_state((uint64_t)n * 4096 + size);
		}
		c05_reject(copy, size - 1, "torn-accepted", "a prefix that is no multiple of the word", size - 1);
		if (size > 130) c05_reject(copy, size - 2, "torn-accepted", "a prefix that is no multiple of the word", size - 2);
		/* foreign: other byte order, version, signature */
		{
			unsigned char *f = malloc(size + 64); uint32_t sig; uint16_t ver;
			memcpy(f, copy, size); memcpy(&sig, f, 4);
			sig = __builtin_bswap32(sig); memcpy(f, &sig, 4); c05_reject(f, size, "foreign-accepted", "a buffer with the signature of the other byte order", sig);
			memcpy(f, copy, size); sig = (uint32_t)l->a[1] ^ 0x1234567; { uint32_t o; memcpy(&o, copy, 4); if (o == sig) sig++; } memcpy(f, &sig, 4); c05_reject(f, size, "foreign-accepted", "a buffer with a wrong signature", sig);
			{ uint32_t o; memcpy(&o, copy, 4); sig = o ^ (1u << (l->a[1] & 31)); memcpy(f, &sig, 4); c05_reject(f, size, "foreign-accepted", "a buffer with a damaged signature", sig); }
			memcpy(f, copy, size); memcpy(&ver, f + 4, 2); ver = (uint16_t)(ver + 1 + ((uint64_t)l->a[1] >> 8) % 65534); memcpy(f + 4, &ver, 2); c05_reject(f, size, "foreign-accepted", "a buffer of another format version", ver);
			free(f);
		}
#if (defined SLJIT_DEBUG && SLJIT_DEBUG)
		{ /* a buffer without debug information is refused by a debug build */
			sljit_uw size2; sljit_uw *b2 = sljit_serialize_compiler(em->c, SLJIT_SERIALIZE_IGNORE_DEBUG, &size2);
			if (!b2) sim_viol("serialize-failed", "sljit_serialize_compiler failed");
			if (size2 > size) sim_viol("serialize-size", "the buffer without debug information is larger");
			live++;
			c05_reject((unsigned char *)b2, size2, "foreign-accepted", "a buffer without debug information", size2);
			sim_free(b2, NULL); live--;
		}
#endif
		/* the whole buffer is fine, and was not written */
		if (memcmp(copy, buf, size)) sim_viol("buffer-written", "the serialized buffer changed");
		{ void *base; size_t len; unsigned char *cp = ro_copy(copy, size, &base, &len);
		sim_phase = "deserialize";
		c = sljit_deserialize_compiler((sljit_uw *)(void *)cp, size, 0, sim_heap_cookie);
		if (!c) sim_viol("valid-rejected", "the complete buffer of %lu bytes was rejected", (unsigned long)size);
		sljit_free_compiler(c);
		sim_unmap(base, len); }
		if (heap_live() != live) sim_viol("leak", "%ld blocks leaked", heap_live() - live);
		sim_free(buf, NULL);
		free(copy);
		sim_ev(size);
		sim_phase = "emit";
	}
}
static void c05_exec(Plan *p)
{
	Twin t; BuildOpt o; C04 s; Code c;
	os_armed = 1; memset(&o, 0, sizeof o);
	o.tick = count_tick; tick_total = 1;
	twin_make(p, &t, &o);
	world_clean("twin");
	memset(&o, 0, sizeof o); memset(&s, 0, sizeof s);
	s.p = p; s.total = tick_total; o.tick = c05_tick; o.user = &s;
	faults_reset();
	if (!build(p, &c, &o)) sim_viol("compile", "compilation failed with error %d", o.error);
	if (prog_run(p, c.code) != t.hash) sim_viol("serialize-disturbs", "serializing changed what the original compiler generates");
	sljit_free_code(c.code, NULL);
	world_clean("end");
	twin_free(&t);
}

/* ============ C06: util stack ============ */
#if (defined SLJIT_UTIL_STACK && SLJIT_UTIL_STACK)
enum { A6_NEW, A6_RESIZE, A6_WRITE, A6_FREE, A6_BAD, A6_TOP };
static void c06_gen(Plan *p, Rng *r)
{
	static const int pages[] = { 4096, 16384, 65536 };
	int n = 4 + (int)rn(r, 70), i;
	for (i = 0; i < n; i++) {
		uint32_t x = rn(r, 100); int s = (int)rn(r, chance(r, 60) ? 1 : 4);
		if (i == 0 || x < 12) {
			int64_t max = chance(r, 40) ? 1 + rn(r, 20000) : chance(r, 50) ? (1 + rn(r, 12)) * 4096 : 1 + rn(r, 300000), st = chance(r, 20) ? max : 1 + rn(r, (uint32_t)max);
			if (chance(r, 6)) st = max + 1 + rn(r, 100);
			if (chance(r, 4)) st = 0;
			plan_add(p, 'A', A6_NEW, 3, (int64_t)s, st, max);
		} else if (x < 62) plan_add(p, 'A', A6_RESIZE, 4, (int64_t)s, (int64_t)(rnd(r) >> 3), (int64_t)rn(r, 6), (int64_t)rn(r, 9));
		else if (x < 85) plan_add(p, 'A', A6_WRITE, 2, (int64_t)s, (int64_t)(rnd(r) >> 3));
		else if (x < 90) plan_add(p, 'A', A6_FREE, 1, (int64_t)s);
		else if (x < 96) plan_add(p, 'A', A6_BAD, 2, (int64_t)s, (int64_t)(rnd(r) >> 3));
		else plan_add(p, 'A', A6_TOP, 2, (int64_t)s, (int64_t)(rnd(r) >> 3));
	}
	for (i = chance(r, 60) ? 1 + (int)rn(r, 4) : 0; i > 0; i--) {
		static const int fk[] = { FK_MMAP, FK_MALLOC, FK_MADVISE, FK_MADVISE };
		plan_add(p, 'F', fk[rn(r, 4)], 2, (int64_t)(1 + rn(r, 12)), (int64_t)(1 + rn(r, 4)));
	}
	plan_add(p, 'P', PA_MODE, 1, (int64_t)rn(r, 3)); plan_add(p, 'P', PA_K, 1, (int64_t)rn(r, 1 << 20));
	plan_add(p, 'P', PA_PAGE, 1, (int64_t)pages[(p->seed >> 10) % 3]);
}
typedef struct { struct sljit_stack *s; unsigned char *shadow; unsigned char *known; sljit_u8 *min, *end, *start; size_t cap; } Stk;
static Stk stk[4];
static void stk_check(Stk *k, const char *where)
{
	struct sljit_stack *s = k->s; size_t i;
	if (s->min_start != k->min || s->end != k->end) sim_viol("stack-pointers", "%s: the limits of the stack changed", where);
	if (s->start != k->start) sim_viol("stack-pointers", "%s: start is at %ld, expected %ld", where, (long)(s->start - s->min_start), (long)(k->start - k->min));
	for (i = (size_t)(k->start - k->min); i < k->cap; i++) if (k->known[i] && k->min[i] != k->shadow[i]) sim_viol("stack-contents", "%s: byte %lu below the end was lost", where, (unsigned long)(k->cap - i));
}
static void stk_free(Stk *k)
{
	sim_phase = "free_stack";
	sljit_free_stack(k->s, sim_heap_cookie); k->s = NULL; free(k->shadow); free(k->known); k->shadow = k->known = NULL;
}
static void c06_exec(Plan *p)
{
	int i, j; uint64_t fired;
	os_armed = 1; os_pagesize = sim_page_of(p); memset(stk, 0, sizeof stk);
	c02_places(p);
	faults_reset();
	for (i = 0; i < p->n; i++) if (p->l[i].k == 'F') faults_add(p->l[i].op, p->l[i].a[0], p->l[i].a[1]);
	for (i = 0; i < p->n; i++) {
		Line *l = p->l + i; Stk *k;
		if (l->k != 'A') continue;
		k = stk + (l->a[0] & 3);
		STAT(ST_ACTIONS);
		switch (l->op) {
		case A6_NEW: {
			sljit_uw st = (sljit_uw)l->a[1], mx = (sljit_uw)l->a[2]; struct sljit_stack *s; long live; int maps;
			if (k->s) stk_free(k);
			if (mx > (1u << 24)) break;
			fired = fk_fired_total; live = heap_live(); maps = os_mapped();
			sim_phase = "allocate_stack";
			s = sljit_allocate_stack(st, mx, sim_heap_cookie);
			sim_ev(!!s);
			if (st > mx || st < 1) { if (s) sim_viol("bad-size-accepted", "a stack with start size %lu and maximum %lu was created", (unsigned long)st, (unsigned long)mx); }
			else if (!s && fk_fired_total == fired) sim_viol("spurious-null", "allocation of a stack failed without a fault");
			if (!s) { STAT(ST_FAIL_SEEN); if (heap_live() != live || os_mapped() != maps) sim_viol("leak", "a failed stack allocation leaked"); break; }
			k->s = s; k->min = s->min_start; k->end = s->end; k->start = s->start; k->cap = (size_t)(s->end - s->min_start);
			if (k->cap < mx) sim_viol("stack-size", "reserved %lu of %lu bytes", (unsigned long)k->cap, (unsigned long)mx);
			if ((sljit_uw)(s->end - s->start) < st || s->start < s->min_start) sim_viol("stack-size", "start size %ld, requested %lu", (long)(s->end - s->start), (unsigned long)st);
			if (s->top != s->end) sim_viol("stack-pointers", "the top of a new stack is not its end");
			{ OsMap *m = os_find(k->min); if (!m || m->addr + m->len < (uintptr_t)k->end) sim_viol("stack-mapping", "the reservation does not cover the stack"); }
			k->shadow = calloc(1, k->cap); k->known = calloc(1, k->cap);
			break; }
		case A6_RESIZE: {
			sljit_u8 *ns, *r, *old; int64_t cur; size_t a, b, q;
			if (!k->s) break;
			cur = k->start - k->min;
			switch (l->a[2]) {
			case 0: cur = (int64_t)((uint64_t)l->a[1] % k->cap); break;
			case 1: cur += (int64_t)((uint64_t)l->a[1] % 9000); break;
			case 2: cur -= (int64_t)((uint64_t)l->a[1] % 9000); break;
			case 3: cur = (int64_t)((uint64_t)l->a[1] % k->cap) & ~(int64_t)4095; cur += l->a[3] - 4; break;
			case 4: cur = 0; break;
			default: cur = (int64_t)k->cap - 1 - (int64_t)((uint64_t)l->a[1] % 64); break;
			}
			if (cur < 0) cur = 0;
			if (cur >= (int64_t)k->cap) cur = (int64_t)k->cap - 1;
			ns = k->min + cur; old = k->start;
			sim_phase = "stack_resize";
			fired = fk_fired_total;
			r = sljit_stack_resize(k->s, ns);
			if (r != ns && !(r == NULL && fk_fired_total != fired)) sim_viol("resize-result", "resize to an address inside the reservation returned another value");
			if (r) k->start = ns;
			/* bytes outside the old or the new area may be lost */
			a = (size_t)((ns > old ? ns : old) - k->min); b = 0;
			for (q = b; q < a && r; q++) k->known[q] = 0;
			sim_ev((uint64_t)cur); sim_state((uint64_t)cur * 16 + (uint64_t)k->cap);
			/* new space must be usable */
			for (q = 0; r && q < 3 && k->start + q < old; q++) { unsigned char *w = k->start + (q == 0 ? 0 : q == 1 ? (size_t)(old - k->start) / 2 : (size_t)(old - k->start) - 1); *w = (unsigned char)(i + (int)q); k->shadow[w - k->min] = *w; k->known[w - k->min] = 1; }
			break; }
		case A6_WRITE: {
			size_t len = (size_t)(k->end - k->start), o, n, q;
			if (!k->s || !len) break;
			o = (size_t)((uint64_t)l->a[1] % len); n = (size_t)(((uint64_t)l->a[1] >> 30) % 6000);
			if (((uint64_t)l->a[1] >> 50 & 3) == 0) { o = 0; n = len; }
			for (q = 0; q < n && o + q < len; q++) { size_t at = (size_t)(k->start - k->min) + o + q; k->min[at] = k->shadow[at] = (unsigned char)(q * 3 + (size_t)i * 11 + 1); k->known[at] = 1; }
			break; }
		case A6_FREE: if (k->s) stk_free(k); break;
		case A6_BAD: {
			sljit_u8 *bad, *r;
			if (!k->s) break;
			switch (l->a[1] & 3) {
			case 0: bad = k->end; break;
			case 1: bad = k->min - 1; break;
			case 2: bad = k->min - (1 + ((uint64_t)l->a[1] >> 8) % 100000); break;
			default: bad = k->end + (((uint64_t)l->a[1] >> 8) % 100000); break;
			}
			sim_phase = "stack_resize_bad";
			r = sljit_stack_resize(k->s, bad);
			if (r) sim_viol("bad-resize-accepted", "resize to an address outside the reservation succeeded");
			break; }
		default: if (k->s) { k->s->top = k->start + (uint64_t)l->a[1] % (uint64_t)(k->end - k->start); } break;
		}
		for (j = 0; j < 4; j++) if (stk[j].s) stk_check(stk + j, "after an operation");
		heap_check("stack");
	}
	faults_reset();
	for (j = 0; j < 4; j++) if (stk[j].s) stk_free(stk + j);
	if (os_mapped()) sim_viol("leak", "%d reservations left", os_mapped());
	heap_expect_live(0, "stacks freed");
}
#endif

int sim_page_of(const Plan *p) { return (int)plan_par(p, PA_PAGE, 4096); }
#include "regex.c"
#ifdef SIM_THR
#include "c03.c"
#endif
#ifndef SIM_THR
#include "c09.c"
#endif
#include "props2.c"
