#include "props.h"

/* ---------------- far functions ---------------- */
/* Functions with the contract of sim_tagfn*, generated by sljit itself at chosen places. */
static struct { void *base; size_t len; void *code; } farfn[4];
static int nfar;
static void *far_make(uint64_t where, int tag, void **stub)
{
	int i; struct sljit_compiler *c; struct sljit_generate_code_buffer b; void *m, *code; size_t len = 65536; int armed = os_armed;
	if (where < 0x10000) len = 32768;
	os_armed = 0;
	m = sim_map_anon(where & ~(uint64_t)0xfff, len, 7);
	os_armed = armed;
	if (!m) return NULL;
	c = sljit_create_compiler(sim_heap_cookie);
	if (!c) sim_harness_error("far function: no compiler");
	sljit_emit_enter(c, 0, SLJIT_ARGS2V(P, W), 3, 2, 0);
	sljit_emit_op2(c, SLJIT_SHL, SLJIT_R0, 0, SLJIT_S1, 0, SLJIT_IMM, 3);
	sljit_emit_op2(c, SLJIT_ADD, SLJIT_R0, 0, SLJIT_R0, 0, SLJIT_S0, 0);
#if (defined SLJIT_64BIT_ARCHITECTURE && SLJIT_64BIT_ARCHITECTURE)
	sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_R0), OFF_CS, SLJIT_IMM, 0x7a60 + tag);
#elif (defined SLJIT_LITTLE_ENDIAN && SLJIT_LITTLE_ENDIAN)
	sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_R0), OFF_CS, SLJIT_IMM, 0x7a60 + tag);
	sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_R0), OFF_CS + 4, SLJIT_IMM, 0);
#else
	sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_R0), OFF_CS, SLJIT_IMM, 0);
	sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_R0), OFF_CS + 4, SLJIT_IMM, 0x7a60 + tag);
#endif
	sljit_emit_return_void(c);
	b.buffer = (unsigned char *)m + (where & 0xff0); b.size = 8192; b.executable_offset = 0;
	os_armed = 0;
	code = sljit_generate_code(c, SLJIT_GENERATE_CODE_BUFFER, &b);
	os_armed = armed;
	sljit_free_compiler(c);
	if (!code) sim_harness_error("far function: not generated");
	c = sljit_create_compiler(sim_heap_cookie);
	if (!c) sim_harness_error("far function: no compiler");
	sljit_set_context(c, 0, SLJIT_ARGS1V(P), 3, 1, 0);
	if (where & 0x1000) for (i = 0; i < (int)(where >> 13 & 7); i++) sljit_emit_op0(c, SLJIT_NOP);
	sljit_emit_ijump(c, SLJIT_JUMP, SLJIT_MEM1(SLJIT_S0), OFF_FAR);
	b.buffer = (unsigned char *)m + 16384 + (where & 0xff0); b.size = 8192; b.executable_offset = 0;
	os_armed = 0;
	*stub = sljit_generate_code(c, SLJIT_GENERATE_CODE_BUFFER, &b);
	os_armed = armed;
	sljit_free_compiler(c);
	if (!*stub) sim_harness_error("far stub: not generated");
	if (ALLOC_WX) sim_protect(m, len, 5);
	farfn[nfar].base = m; farfn[nfar].len = len; farfn[nfar].code = code; nfar++;
	STAT(ST_PLACED_FAR);
	return code;
}
static void far_setup(const Plan *p)
{
	int i;
	nfar = 0;
	memset(sim_tagfn_addr, 0, sizeof sim_tagfn_addr); memset(sim_farjmp_addr, 0, sizeof sim_farjmp_addr);
	for (i = 0; i < p->n; i++) {
		Line *l = p->l + i; void *c, *stub = NULL;
		if (l->k != 'S' || l->op < 0 || l->op > 3 || nfar >= 4 || sim_tagfn_addr[l->op]) continue;
		c = far_make((uint64_t)l->a[0], l->op, &stub);
		if (c) { sim_tagfn_addr[l->op] = (sljit_uw)(uintptr_t)c; sim_farjmp_addr[l->op] = (sljit_uw)(uintptr_t)stub; }
	}
}
static void far_release(void) { int a = os_armed; os_armed = 0; while (nfar > 0) { nfar--; sim_unmap(farfn[nfar].base, farfn[nfar].len); } os_armed = a; memset(sim_tagfn_addr, 0, sizeof sim_tagfn_addr); memset(sim_farjmp_addr, 0, sizeof sim_farjmp_addr); }

uint64_t place_rand(Rng *r)
{
	uint64_t j = (uint64_t)rn(r, 4096) * 16, a;
	if (chance(r, 6)) return 0x1000 * (uint64_t)(1 + rn(r, 8)) + j % 4096;           /* lowest addresses the system gives */
	if (chance(r, 3)) return 0x2000000 - 0x14000 + 0x1000 * (uint64_t)rn(r, 64) + j % 4096; /* around 32 MB */
	if (sizeof(void *) == 8) {
		switch (rn(r, 10)) {
		case 0: return 0x10000000ull * (1 + rn(r, 7)) + j;                    /* low, below 2 GB */
		case 1: return 0x7fff0000ull - (uint64_t)rn(r, 64) * 4096 + j % 4096; /* around 2 GB */
		case 2: return 0x80000000ull + (uint64_t)rn(r, 1u << 30) + j;
		case 3: return 0xffff0000ull - (uint64_t)rn(r, 16) * 4096 + j % 4096; /* around 4 GB */
		case 4: return 0x100000000ull + (uint64_t)rn(r, 1u << 31);
		case 5: a = 1ull << (31 + rn(r, 15)); return a - 65536 + j;           /* below a power of two */
		case 6: a = 1ull << (31 + rn(r, 15)); return a + (uint64_t)rn(r, 1u << 20) * 16;
		case 7: return (rnd(r) & 0x3fffffffffull) | 0x100000000ull;
		case 8: return (rnd(r) & 0x7fffffffffffull) & ~15ull;
		default: return 0x8000000ull - 65536 + j + (uint64_t)rn(r, 8) * 0x8000000ull; /* around multiples of 128 MB */
		}
	}
	switch (rn(r, 6)) {
	case 0: return 0x10000000u * (1 + rn(r, 7)) - 65536 + j;
	case 1: return 0x2000000u * (1 + rn(r, 60)) - 65536 + j;
	case 2: return 0x7ff00000u - rn(r, 64) * 4096;
	case 3: return 0x80000000u + rn(r, 1u << 30);
	case 4: return 0x30000000u + rn(r, 1u << 26);
	default: return 0x1000000u + rn(r, 1u << 29);
	}
}

/* ============ C07 / C13: run-time patches ============ */
enum { A7_CONST, A7_JUMP, A7_BUF, A7_RUN, A7_DISTURB, A7_FREEONE, A7_UNUSED, A7_INSIDE };
static void c07_gen_common(Plan *p, Rng *r, int faults)
{
	int n, i;
	prog_gen(p, r, 4 + (int)rn(r, 40), FLAVOUR_PATCH);
	prog_pressure(p, r);
	for (i = 0; i < 4; i++) if (chance(r, 50)) plan_add(p, 'S', i, 1, (int64_t)place_rand(r));
	n = 3 + (int)rn(r, 40);
	for (i = 0; i < n; i++) {
		uint32_t x = rn(r, 100);
		if (x < 38) plan_add(p, 'A', A7_CONST, 2, (int64_t)(rnd(r) >> 3), (int64_t)rnd(r));
		else if (x < 66) plan_add(p, 'A', A7_JUMP, 2, (int64_t)(rnd(r) >> 3), (int64_t)(rnd(r) >> 3));
		else if (x < 72) plan_add(p, 'A', A7_BUF, 2, (int64_t)(rnd(r) >> 3), (int64_t)(rnd(r) >> 3));
		else if (x < 84) plan_add(p, 'A', A7_RUN, 0);
		else if (x < 90) plan_add(p, 'A', A7_INSIDE, 2, (int64_t)rn(r, 1000), (int64_t)rn(r, 2));
		else if (x < 95) plan_add(p, 'A', A7_DISTURB, 1, (int64_t)rn(r, 1000000));
		else if (x < 98) plan_add(p, 'A', A7_FREEONE, 1, (int64_t)rn(r, 1000));
		else plan_add(p, 'A', A7_UNUSED, 0);
	}
	plan_add(p, 'A', A7_RUN, 0);
	plan_add(p, 'P', PA_MODE, 1, (int64_t)rn(r, 3)); plan_add(p, 'P', PA_K, 1, (int64_t)rn(r, 1 << 20));
	if (faults) for (i = chance(r, 60) ? 1 + (int)rn(r, 3) : 0; i > 0; i--) {
		static const int fk[] = { FK_MPROTECT, FK_MPROTECT, FK_MMAP, FK_MALLOC, FK_FTRUNCATE, FK_OPEN };
		plan_add(p, 'F', fk[rn(r, 6)], 2, (int64_t)(1 + rn(r, 30)), (int64_t)(chance(r, 60) ? 1 : 1 + rn(r, 4)));
	}
}
static void c07_gen(Plan *p, Rng *r) { c07_gen_common(p, r, 0); }

static unsigned char slots[NSLOT * 8], slots2[NSLOT * 8];
static uint64_t masked_run(const Plan *p, void *entry, int sentinel, unsigned char *out)
{
	sljit_sw r; uint64_t h; const char *ph = sim_phase; int armed = os_armed;
	st_init(p);
	memset(sim_st + OFF_CS, sentinel, NSLOT * 8);
	os_armed = 0; sim_phase = "execute";
	r = prog_call(p, entry);
	sim_phase = ph; os_armed = armed;
	memcpy(out, sim_st + OFF_CS, NSLOT * 8);
	memset(sim_st + OFF_CS, 0, NSLOT * 8);
	h = st_hash();
	return h ^ (uint64_t)r * 0x9e3779b97f4a7c15ull;
}
static sljit_sw slot_word(const unsigned char *s) { sljit_sw v; memcpy(&v, s, sizeof v); return v; }
#define WX_CHECK(code, size, where) do { if (!ALLOC_PLAIN) wx_check((code), (size), (where)); } while (0)
/* protection of the first page of code that is not executable, or writable; -1: none */
static int code_badprot(const void *code, size_t size)
{
	unsigned char *a = (unsigned char *)CODE_PTR(code), *q = a; OsMap *m;
	while (q < a + size + (size == 0)) { m = os_find(q); if (!m) return -1; if (!(m->prot & 4) || (m->prot & 2)) return m->prot; q = (unsigned char *)(m->addr + m->len); }
	return -1;
}
static void wx_check(const void *code, size_t size, const char *where)
{
	OsMap *m; int i;
	for (i = 0; (m = os_map_n(i)); i++) if ((m->prot & 2) && (m->prot & 4)) sim_viol("wx", "%s: %lu bytes are writable and executable", where, (unsigned long)m->len);
	if (code) {
		const unsigned char *q = CODE_PTR(code), *e = q + size;
		while (q < e) {
			m = os_find(q);
			if (!m) sim_viol("code-unmapped", "%s: generated code is not mapped", where);
			if (!(m->prot & 4)) sim_viol("code-not-executable", "%s: generated code is not executable (protection %d)", where, m->prot);
			if (m->prot & 2) sim_viol("code-writable", "%s: generated code is writable (protection %d)", where, m->prot);
			q = (const unsigned char *)(m->addr + m->len);
		}
	}
}
/* a small program compiled in between */
static struct { void *code; sljit_uw size; int v; } dist[32]; static int ndist;
static int disturb(int seed)
{
	struct sljit_compiler *c; void *code; int i, n = 3 + seed % 300;
	if (ndist == 32) return 1;
	c = sljit_create_compiler(sim_heap_cookie);
	if (!c) return 0;
	sljit_emit_enter(c, 0, SLJIT_ARGS0(W), 2, 0, 0);
	for (i = 0; i < n; i++) sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, seed + i);
	sljit_emit_return(c, SLJIT_MOV, SLJIT_R0, 0);
	code = sljit_generate_code(c, 0, NULL);
	if (code) { dist[ndist].code = code; dist[ndist].size = sljit_get_generated_code_size(c); dist[ndist].v = seed + n - 1; ndist++; }
	sljit_free_compiler(c);
	return code != NULL;
}
static void dist_check(int i)
{
	union { void *v; sljit_sw (SLJIT_FUNC *f)(void); } u; sljit_sw r; const char *ph = sim_phase; int a = os_armed;
	u.v = dist[i].code; if (ICACHE_COHERENT) sim_code_sync_all(); os_armed = 0; sim_phase = "execute-other"; r = u.f(); sim_phase = ph; os_armed = a;
	if (r != dist[i].v) sim_viol("other-code-damaged", "unrelated code returned %ld instead of %d", (long)r, dist[i].v);
}

int defined_arm_v6(void);
/* one generated program and the model of its patch sites */
typedef struct {
	const Plan *p; Code c; unsigned char *cb, *snap; int faulty, patched; void *jt[4];
	int64_t cval[NSLOT], cold[NSLOT]; int jval[NSLOT], jold[NSLOT]; int cexec[NSLOT], jexec[NSLOT]; uint32_t bval[8], bold[8]; int bexec[8], binit[8], bold_init[8];
	const Line *inl[3]; int ninl, at, seen;      /* operations done by a callback of the running program */
} C07;
static C07 w7;
static void c07_old(C07 *w) { memcpy(w->cold, w->cval, sizeof w->cold); memcpy(w->jold, w->jval, sizeof w->jold); memcpy(w->bold, w->bval, sizeof w->bold); memcpy(w->bold_init, w->binit, sizeof w->binit); }
static void c07_op(C07 *w, const Line *l)
{
	Code *c = &w->c; int k, faulty = w->faulty; uint64_t f0; size_t q;
	icache_reset();
	memcpy(w->snap, w->cb, c->size);
	f0 = fk_fired[FK_MPROTECT]; sim_refused = 0;
	switch (l->op) {
	case A7_CONST: {
		int64_t v = l->a[1]; ConstSite *s;
		if (!c->ncs) break;
		k = (int)((uint64_t)l->a[0] % (unsigned)c->ncs); s = c->cs + k;
		switch ((uint64_t)v & 7) { case 0: v = (int8_t)(v >> 8); break; case 1: v = (int16_t)(v >> 8); break; case 2: v = (int32_t)(v >> 8); break; case 3: v = (int64_t)1 << ((v >> 8) & 63); break;
			case 4: v = (v >> 8 & 1) ? -1 : 0; break; case 5: v = (int64_t)(((uint64_t)v >> 8 & 0xffff) << ((v >> 3 & 3) * 16)); break; default: break; }
		if (s->op == SLJIT_MOV_U8 || s->op == SLJIT_MOV32_U8) v = s->mem ? (v & 0xff) : ((v & 0x1ff) - 256);
		else if (s->op != SLJIT_MOV) v = (int32_t)v;
		v = (sljit_sw)v;
		sim_phase = faulty ? "patch-const-faulty" : "patch-const";
		sljit_set_const(c->cst[s->idx], s->op, (sljit_sw)v, c->eoff);
		w->cval[k] = v; w->patched = 1; STAT(ST_PATCH_CONST);
		break; }
	case A7_JUMP: {
		JumpSite *s; int t; sljit_uw a;
		if (!c->nrj) break;
		k = (int)((uint64_t)l->a[0] % (unsigned)c->nrj); s = c->rj + k;
		t = (int)((uint64_t)l->a[1] % (unsigned)s->nl);
		a = s->kind ? (sljit_uw)(uintptr_t)w->jt[t] : c->lab[s->lab[t]];
		sim_phase = faulty ? "patch-jump-faulty" : "patch-jump";
		sljit_set_jump_addr(c->jmp[s->idx], a, c->eoff);
		w->jval[k] = t; w->patched = 1; STAT(ST_PATCH_JUMP);
		break; }
	case A7_BUF: {
		BufSite *s; unsigned char *wr; sljit_uw a; uint32_t v;
		if (!c->nrb) break;
		k = (int)((uint64_t)l->a[0] % (unsigned)c->nrb); s = c->rb + k;
		a = c->lab[s->lab];
#if defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2
		a &= ~(sljit_uw)1;
#endif
		sim_phase = faulty ? "patch-buffer-faulty" : "patch-buffer";
		wr = sljit_read_only_buffer_start_writing(a, s->size, c->eoff);
		for (q = 0; q < s->size; q++) wr[q] = (unsigned char)(l->a[1] + (int64_t)q * 29);
		sljit_read_only_buffer_end_writing(a, s->size, c->eoff);
		memcpy(&v, (void *)(uintptr_t)a, 4); w->bval[k] = v; w->binit[k] = 1;
		for (q = 0; q < s->size; q++) if (((unsigned char *)(uintptr_t)a)[q] != (unsigned char)(l->a[1] + (int64_t)q * 29)) sim_viol("buffer-lost", "byte %lu of a read-only buffer", (unsigned long)q);
		/* nothing else changed */
		for (q = 0; q < c->size; q++) if (w->cb[q] != w->snap[q] && ((sljit_uw)(uintptr_t)(w->cb + q) < a || (sljit_uw)(uintptr_t)(w->cb + q) >= a + s->size)) sim_viol("buffer-overlap", "writing a read-only buffer changed code");
		STAT(ST_PATCH_BUF); w->patched = 1;
		memcpy(w->snap, w->cb, c->size);
		break; }
	case A7_DISTURB: { uint64_t ft = fk_fired_total; sim_phase = "disturb"; if (!disturb((int)l->a[0]) && fk_fired_total == ft) sim_viol("spurious-error", "unrelated compilation failed");
		if (fk_fired[FK_MPROTECT] != f0 && ndist) { if (code_badprot(dist[ndist - 1].code, dist[ndist - 1].size) >= 0) sim_viol("generate-ignores-mprotect", "code was returned although making it executable was refused"); }
		break; }
	case A7_FREEONE: if (ndist) { k = (int)((uint64_t)l->a[0] % (unsigned)ndist); dist_check(k); sim_phase = "free-other"; sljit_free_code(dist[k].code, NULL); dist[k] = dist[--ndist]; } break;
	case A7_UNUSED: sim_phase = "free-unused"; sljit_free_unused_memory_exec(); break;
	}
	if (!ICACHE_COHERENT && !(defined_arm_v6()) && (l->op == A7_CONST || l->op == A7_JUMP))
		for (q = 0; q < c->size; q++) if (w->cb[q] != w->snap[q] && !icache_flushed((uintptr_t)w->cb + q)) { STAT(ST_STALE_LINES); sim_viol("stale-code", "patched instruction at +%lu was not flushed from the instruction cache", (unsigned long)q); }
	if (fk_fired[FK_MPROTECT] != f0 && (l->op == A7_CONST || l->op == A7_JUMP || l->op == A7_BUF)) {
		k = code_badprot(c->code, c->size);
		if (k >= 0) sim_viol("patch-ignores-mprotect", "code was left with protection %d after a patch whose permission change was refused", k);
	}
	WX_CHECK(c->code, c->size, "after an operation");
	for (k = 0; k < ndist; k++) WX_CHECK(dist[k].code, dist[k].size, "other code");
}
static void c07_inside(void)
{
	C07 *w = &w7; int armed = os_armed, i; const char *ph = sim_phase; void (*h)(void) = sim_cb_hook;
	if (w->seen++ != w->at) return;
	sim_cb_hook = NULL; os_armed = 1;
	for (i = 0; i < w->ninl; i++) { STAT(ST_ACTIONS); c07_op(w, w->inl[i]); sim_ev(0x1b); }
	os_armed = armed; sim_phase = ph; sim_cb_hook = h;
	if (ICACHE_COHERENT) sim_code_sync_all();
}
static int const_ok(const ConstSite *s, int64_t v, const unsigned char *q)
{
	int64_t ex = const_expected(s, v); int len = const_expected_len(s); int32_t x;
	memcpy(&x, q, 4);
	return len == (int)sizeof(sljit_sw) ? slot_word(q) == (sljit_sw)ex : len == 1 ? *q == (unsigned char)ex : x == (int32_t)ex;
}
static void c07_verify(C07 *w)
{
	Code *c = &w->c; int k;
	for (k = 0; k < c->ncs; k++) if (w->cexec[k]) {
		ConstSite *s = c->cs + k; unsigned char *q = slots + s->slot * 8;
		if (!const_ok(s, w->cval[k], q) && !const_ok(s, w->cold[k], q)) sim_viol("const-value", "constant %d (op %d%s) is %lld, last set to %lld", k, s->op, s->mem ? " in memory" : "", (long long)slot_word(q), (long long)const_expected(s, w->cval[k]));
	}
	for (k = 0; k < c->nrj; k++) if (w->jexec[k]) {
		JumpSite *s = c->rj + k; unsigned char *q = slots + s->slot * 8; uint64_t v; sljit_sw x = slot_word(q);
		memcpy(&v, q, 8);
		if (s->kind ? v != 0x7a60u + (unsigned)w->jval[k] && v != 0x7a60u + (unsigned)w->jold[k] : x != 0x7a60 + w->jval[k] && x != 0x7a60 + w->jold[k])
			sim_viol("jump-target", "rewritable jump %d (kind %d) reached %llx, last set to target %d", k, s->kind, (unsigned long long)(s->kind ? v : (uint64_t)x), w->jval[k]);
	}
	for (k = 0; k < c->nrb; k++) if (w->bexec[k] && w->bold_init[k]) { sljit_sw x = slot_word(slots + c->rb[k].slot * 8); if ((uint32_t)x != w->bval[k] && (uint32_t)x != w->bold[k]) sim_viol("buffer-value", "read-only buffer %d read as %lx, written %lx", k, (unsigned long)x, (unsigned long)w->bval[k]); }
}
static void c07_run(Plan *p, int faulty)
{
	C07 *w = &w7; BuildOpt o; uint64_t base, h; int i, k; static uint64_t fired0; Code *c = &w->c;
	os_armed = 1; ndist = 0; sim_cb_hook = NULL;
	c02_places(p);
	faults_reset();
	far_setup(p);
	memset(w, 0, sizeof *w);
	w->p = p; w->faulty = faulty;
	for (k = 0; k < 4; k++) w->jt[k] = sim_tagfn_addr[k] ? (void *)(uintptr_t)sim_tagfn_addr[k] : sim_tagfns[k];
	memset(&o, 0, sizeof o);
	icache_reset();
	if (faulty) {
		if (ALLOC_WX) { void *x = sljit_malloc_exec(10); if (x) sljit_free_exec(x); else sim_harness_error("warm-up failed"); faults_reset(); } /* the probe of the first allocation */
		for (i = 0; i < p->n; i++) if (p->l[i].k == 'F') faults_add(p->l[i].op, p->l[i].a[0], p->l[i].a[1]);
		o.fail_ok = 1;
	}
	fired0 = fk_fired[FK_MPROTECT];
	if (!build(p, c, &o)) {
		WX_CHECK(NULL, 0, "after a failed compilation");
		STAT(ST_FAIL_SEEN);
		faults_reset(); far_release(); world_clean("failed compilation"); return;
	}
	if (fk_fired[FK_MPROTECT] != fired0) {
		/* sljit was told that a permission change failed, and still handed out the code */
		if (code_badprot(c->code, c->size) >= 0) sim_viol("generate-ignores-mprotect", "code was returned although making it executable was refused");
	}
	w->cb = CODE_PTR(c->code);
	WX_CHECK(c->code, c->size, "generated");
	if (!ICACHE_COHERENT) { size_t q; for (q = 0; q < c->size; q++) if (!icache_flushed((uintptr_t)w->cb + q)) { STAT(ST_STALE_LINES); sim_viol("stale-code", "byte %lu of %lu of new code was not flushed from the instruction cache", (unsigned long)q, (unsigned long)c->size); } }
	base = masked_run(p, c->code, 0xee, slots);
	h = masked_run(p, c->code, 0x11, slots2);
	sim_ev(base);
	if (h != base) sim_viol("nondeterministic", "two runs of the same program differ");
	for (k = 0; k < c->ncs; k++) {
		int len = const_expected_len(c->cs + k);
		w->cexec[k] = !memcmp(slots + c->cs[k].slot * 8, slots2 + c->cs[k].slot * 8, (size_t)len);
		w->cval[k] = c->cs[k].init;
		if (c->cs[k].idx >= c->nc) sim_viol("enumeration", "constant %d missing", c->cs[k].idx);
	}
	for (k = 0; k < c->nrj; k++) { w->jexec[k] = !memcmp(slots + c->rj[k].slot * 8, slots2 + c->rj[k].slot * 8, sizeof(sljit_sw)); if (c->rj[k].idx >= c->nj) sim_viol("enumeration", "jump %d missing", c->rj[k].idx); }
	for (k = 0; k < c->nrb; k++) w->bexec[k] = c->rb[k].slot >= 0 && !memcmp(slots + c->rb[k].slot * 8, slots2 + c->rb[k].slot * 8, sizeof(sljit_sw));
	w->snap = malloc(c->size + 1);
	c07_old(w);
	for (i = 0; i < p->n; i++) {
		Line *l = p->l + i; int j;
		if (l->k != 'A') continue;
		if (l->op == A7_INSIDE) {
			/* the next operations are done by a callback, while the program is running */
			w->ninl = 0; w->at = (int)((uint64_t)l->a[0] % 7); w->seen = 0;
			for (j = i + 1; j < p->n && w->ninl < 1 + (l->a[1] & 1); j++) { if (p->l[j].k != 'A' || p->l[j].op == A7_RUN || p->l[j].op == A7_INSIDE) break; w->inl[w->ninl++] = p->l + j; }
			sim_cb_hook = c07_inside;
		} else if (l->op != A7_RUN) { STAT(ST_ACTIONS); c07_op(w, l); c07_old(w); continue; }
		else STAT(ST_ACTIONS);
		sim_phase = "verify";
		h = masked_run(p, c->code, 0xee, slots);
		sim_cb_hook = NULL;
		if (h != base) sim_viol("program-damaged", "the program computes something else after patching");
		c07_verify(w);
		c07_old(w);
		for (k = 0; k < ndist; k++) dist_check(k);
		sim_ev(h); sim_state(h + (uint64_t)w->patched * 13 + (uint64_t)i);
		if (l->op == A7_INSIDE && w->seen > w->at && w->ninl) i = (int)(w->inl[w->ninl - 1] - p->l);
	}
	free(w->snap);
	faults_reset();
	sim_phase = "free-code";
	while (ndist) { ndist--; dist_check(ndist); sljit_free_code(dist[ndist].code, NULL); }
	sljit_free_code(c->code, NULL);
	far_release();
	world_clean("patches");
}
int defined_arm_v6(void)
{
#if defined SLJIT_CONFIG_ARM_V6 && SLJIT_CONFIG_ARM_V6
	return 1;
#else
	return 0;
#endif
}
static void c07_exec(Plan *p) { c07_run(p, 0); }
static void c13_gen(Plan *p, Rng *r) { c07_gen_common(p, r, 1); }
static void c13_exec(Plan *p) { c07_run(p, 1); }

/* ============ C10: placement ============ */
enum { A10_OS, A10_BUFFER, A10_SMALL, A10_NEAR };
/* an address near which some part of the code sits exactly at the limit of a branch form: at a power-of-two distance from
   a far function, or across an absolute boundary */
static uint64_t near_place(uint64_t sel, uint64_t where, size_t nbytes)
{
	static const unsigned char dist_bits[] = { 15, 17, 18, 19, 20, 21, 22, 23, 24, 24, 25, 25, 26, 26, 27, 27, 27, 28, 28, 29, 30, 31, 31, 31, 32, 32, 33, 36, 37 };
	static const unsigned char abs_bits[] = { 20, 24, 25, 26, 27, 28, 28, 28, 31, 32, 36, 39, 42 };
	uint64_t t = 0, d, k = (sel >> 24) % (nbytes + 64); int i, n = 0, j;
	if (sel & 3) {
		for (i = 0; i < 4; i++) if (sim_tagfn_addr[i]) n++;
		if (n) {
			j = (int)((sel >> 2) % (unsigned)n);
			for (i = 0; i < 4; i++) if (sim_tagfn_addr[i] && j-- == 0) t = (sel >> 8 & 1) ? sim_farjmp_addr[i] : sim_tagfn_addr[i];
			d = (uint64_t)1 << dist_bits[(sel >> 10) % sizeof dist_bits];
			if (sizeof(void *) == 4 && d > 0x7fffffff) d = (uint64_t)1 << 25;
			return ((sel >> 9 & 1) ? t + d - k : t - d - k) & ~(uint64_t)15;
		}
	}
	d = (uint64_t)1 << abs_bits[(sel >> 10) % (sizeof(void *) == 4 ? 9 : sizeof abs_bits)];
	return ((where & ~(d - 1)) + d - k) & ~(uint64_t)15;
}
/* the same for one jump of the code (or address it loads), exact to some bytes: sites are its offset and target */
static uint64_t near_exact(uint64_t sel, const Code *c, size_t nbytes)
{
	static const unsigned char bits[] = {
#if defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86
		31
#elif defined SLJIT_CONFIG_ARM_64 && SLJIT_CONFIG_ARM_64
		27, 27, 20, 32, 33
#elif defined SLJIT_CONFIG_ARM && SLJIT_CONFIG_ARM
		25, 24, 24, 20, 22, 26
#elif defined SLJIT_CONFIG_PPC && SLJIT_CONFIG_PPC
		25, 25, 15, 31
#elif defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV
		20, 20, 31, 31
#elif defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X
		32, 32, 16, 31
#elif defined SLJIT_CONFIG_LOONGARCH && SLJIT_CONFIG_LOONGARCH
		27, 27, 17, 31, 31
#else
		17, 28, 28
#endif
	};
	uint64_t t, d, a; sljit_uw base = (sljit_uw)(uintptr_t)CODE_PTR(c->code) - (sljit_uw)c->eoff, off; int i, n = 0, j;
	for (i = 0; i < c->nj; i++) if (c->jtg[i] && c->jmp[i] - base < nbytes * 2) n++;
	if (!n) return 0;
	j = (int)((sel >> 2) % (unsigned)n);
	for (i = 0; i < c->nj; i++) if (c->jtg[i] && c->jmp[i] - base < nbytes * 2 && j-- == 0) break;
	t = c->jtg[i]; off = c->jmp[i] - base; d = (uint64_t)1 << bits[(sel >> 10) % sizeof bits];
	a = ((sel >> 9 & 1) ? t + d - off : t - d - off) + (sel >> 16 & 31) - 16;
	a &= ~(uint64_t)15;
	if (sizeof(void *) == 4 ? a > 0xff000000u || a < 0x200000 : a > 0x7f0000000000ull || a < 0x200000) return 0;
	return a;
}
/* distances at which branch forms change, in instructions of 1, 2 or 4 bytes */
static const int spans[] = { 30, 62, 125, 250, 500, 1018, 2040, 4090, 8186, 16376, 32760 };
static const int spans_big[] = { 65530, 131060, 262130, 524270, 1048560 };
static void c10_gen(Plan *p, Rng *r)
{
	int i, n, big = chance(r, 6);
	prog_gen(p, r, 3 + (int)rn(r, 45), chance(r, 70) ? FLAVOUR_FAR : FLAVOUR_ALL);
	/* push jump sources and targets apart */
	if (chance(r, 60)) for (i = 0, n = 1 + (int)rn(r, 2); i < n; i++) {
		int j, at, k; Line l; int64_t cnt = big && i == 0 ? spans_big[rn(r, 5)] - (int64_t)rn(r, 60) + 20 : spans[rn(r, 11)] - (int64_t)rn(r, 60) + 20;
		if (cnt < 1) cnt = 1;
		plan_add(p, 'O', OK_FILL, 1, cnt);
		/* move it to a random place among the operations */
		for (j = 0; j < p->n && p->l[j].k != 'O'; j++) ;
		at = j + (int)rn(r, (uint32_t)(p->n - j)); l = p->l[p->n - 1];
		for (k = p->n - 1; k > at; k--) p->l[k] = p->l[k - 1];
		p->l[at] = l;
	}
	for (i = 0; i < 4; i++) if (chance(r, 65)) plan_add(p, 'S', i, 1, (int64_t)place_rand(r));
	for (i = 0, n = 1 + (int)rn(r, 5); i < n; i++) {
		uint32_t x = rn(r, 100);
		plan_add(p, 'A', x < 22 ? A10_OS : x < 45 ? A10_BUFFER : x < 83 ? A10_NEAR : A10_SMALL, 3, (int64_t)place_rand(r), (int64_t)(rnd(r) >> 3), (int64_t)rn(r, 1 << 16));
	}
}
static void c10_exec(Plan *p)
{
	Twin t; BuildOpt o; int i;
	os_armed = 1; memset(&o, 0, sizeof o); faults_reset();
	far_setup(p);
	{ sljit_uw keep[4], keep2[4]; memcpy(keep, sim_tagfn_addr, sizeof keep); memset(sim_tagfn_addr, 0, sizeof keep);
	memcpy(keep2, sim_farjmp_addr, sizeof keep2); memset(sim_farjmp_addr, 0, sizeof keep2);
	twin_make(p, &t, &o); /* the twin calls nearby C functions */
	world_clean("twin");
	memcpy(sim_tagfn_addr, keep, sizeof keep); memcpy(sim_farjmp_addr, keep2, sizeof keep2); }
	for (i = 0; i < p->n; i++) {
		Line *l = p->l + i; Code c; uint64_t h; int ok;
		if (l->k != 'A') continue;
		STAT(ST_ACTIONS);
		memset(&o, 0, sizeof o);
		if (l->op == A10_OS) {
			uint64_t pl[4]; int q;
			pl[0] = (uint64_t)l->a[0] & ~(uint64_t)0xffff; if (pl[0] < 0x4000000) pl[0] += 0x20000000; pl[1] = pl[0] + 0x40000000ull; pl[2] = pl[0] + 0x1000000; pl[3] = pl[0] - 0x1000000;
			if (l->a[1] & 1) { uint64_t x = pl[0]; pl[0] = pl[1]; pl[1] = x; }
			for (q = 0; q < 4; q++) if ((sizeof(void *) == 4 && pl[q] > 0xfff00000u)) pl[q] &= 0x7fff0000u;
			os_place_list(pl, 4);
			if (!build(p, &c, &o)) sim_viol("spurious-error", "compilation failed with error %d", o.error);
			code_check(&c, "placed by the system");
			h = prog_run(p, c.code);
			if (h != t.hash) sim_viol("placement", "code placed at %p computes something else", c.code);
			sim_ev(h); sim_state((uint64_t)(uintptr_t)c.code);
			sljit_free_code(c.code, NULL);
			world_clean("placed");
		} else if (!ALLOC_WX) {
			int pass = 0; uint64_t exact = 0;
again:
		{
			/* a caller supplied buffer with unmapped pages on both sides */
			struct sljit_generate_code_buffer b; size_t size, len, slack, q, pg = 4096; uint64_t near; unsigned char *m, *in, *buf, *wr; size_t unit = 16; sljit_sw xo = 0; int fill = 0xcb; void *alias = NULL;
			size = t.nbytes + t.nbytes / 2 + 4096;
			if (l->op == A10_SMALL) size = (size_t)((double)t.nbytes * ((double)((uint64_t)l->a[1] % 2000) / 1000.0)) & ~(unit - 1);
			if (((uint64_t)l->a[1] >> 40 & 3) == 0 && l->op != A10_SMALL) size = (t.nbytes * 3 + 8192);
			slack = (size_t)(((uint64_t)l->a[1] >> 20) % 5) * 16;
			len = (size + slack + pg - 1) / pg * pg; if (!len) len = pg;
			os_armed = 0; near = 0;
			if (l->op == A10_NEAR) { near = exact ? exact : near_place((uint64_t)l->a[1], (uint64_t)l->a[0], t.nbytes); slack = near & 0xffff; len = (size + slack + pg - 1) / pg * pg; }
			m = sim_map_anon(l->op == A10_NEAR ? (near & ~(uint64_t)0xffff) - 65536 : (uint64_t)l->a[0] & ~(uint64_t)0xffff, len + 2 * 65536, 0);
			if (!m) m = sim_map_anon(0, len + 2 * 65536, 0);
			if (!m) { os_armed = 1; STAT(ST_SKIPPED); continue; }
			in = m + 65536;
			if (ALLOC_PROT) { alias = sim_map_dual(in, len, &wr); if (!alias) sim_harness_error("dual mapping"); xo = in - wr; }
			else { sim_protect(in, len, 7); wr = in; }
			memset(wr, fill, len);
			buf = wr + (l->op != A10_NEAR && ((uint64_t)l->a[1] >> 50 & 1) ? len - size - (slack & 16 ? 16 : 0) : slack & ~(size_t)15);
			buf = (unsigned char *)((uintptr_t)buf & ~(uintptr_t)15);
			if (buf < wr) buf = wr;
			b.buffer = buf; b.size = size; b.executable_offset = xo;
			o.gopt = SLJIT_GENERATE_CODE_BUFFER; o.gdata = &b; o.fail_ok = l->op == A10_SMALL || 1;
			os_armed = 1;
			ok = build(p, &c, &o);
			sim_phase = "buffer-bounds";
			for (q = 0; q < len; q++) if ((wr + q < buf || wr + q >= buf + size) && wr[q] != fill) sim_viol("buffer-overrun", "a byte %ld bytes %s the given buffer of %lu bytes was written", wr + q < buf ? (long)(buf - wr - (long)q) : (long)(wr + q - buf - (long)size + 1), wr + q < buf ? "before" : "after", (unsigned long)size);
			sim_ev((uint64_t)ok);
			if (ok) {
				STAT(ST_BUF_OK);
				if (c.size > size) sim_viol("buffer-overrun", "%lu bytes generated into a buffer of %lu", (unsigned long)c.size, (unsigned long)size);
				if (CODE_PTR(c.code) < buf + xo || CODE_PTR(c.code) + c.size > buf + xo + size) sim_viol("buffer-overrun", "the code is not inside the given buffer");
				if (c.eoff != xo) sim_viol("exec-offset", "executable offset %ld, given %ld", (long)c.eoff, (long)xo);
				code_check(&c, "given buffer");
				h = prog_run(p, c.code);
				if (h != t.hash) sim_viol("placement", "code in a buffer at %p computes something else", (void *)b.buffer);
				sim_ev(h); sim_state((uint64_t)(uintptr_t)c.code ^ size);
				exact = l->op == A10_NEAR && pass == 0 && ((uint64_t)l->a[1] >> 45 & 3) ? near_exact((uint64_t)l->a[1] >> 7, &c, t.nbytes) : 0;
			} else {
				STAT(ST_BUF_SMALL);
				if (l->op != A10_SMALL && size >= t.nbytes * 3 + 8192) { if (o.error != SLJIT_ERR_EX_ALLOC_FAILED && o.error != SLJIT_ERR_ALLOC_FAILED) sim_viol("error-mismatch", "error %d", o.error); STAT(ST_SKIPPED); }
			}
			os_armed = 0;
			if (alias) sim_unmap(wr, len);
			sim_unmap(m, len + 2 * 65536);
			os_armed = 1;
			heap_expect_live(0, "given buffer");
			if (os_mapped() || os_fds()) { sljit_free_unused_memory_exec(); if (os_mapped()) sim_viol("exec-leak", "a compilation into a given buffer left %d mappings", os_mapped()); }
		}
			if (exact && pass++ == 0) goto again;
		}
	}
	os_armed = 1;
	far_release();
	world_clean("end");
	twin_free(&t);
}

/* ============ C14: verbose output ============ */
static void c14_gen(Plan *p, Rng *r)
{
	int i, n;
	prog_gen(p, r, 2 + (int)rn(r, 70), chance(r, 30) ? FLAVOUR_PATCH : FLAVOUR_ALL);
	prog_pressure(p, r);
	for (i = 0, n = 1 + (int)rn(r, 5); i < n; i++) plan_add(p, 'C', 0, 2, (int64_t)(i == 0 && chance(r, 60) ? 0 : rnd(r) >> 3), (int64_t)rn(r, 3));
	for (i = chance(r, 85) ? 1 + (int)rn(r, 4) : 0; i > 0; i--) plan_add(p, 'F', FK_STREAM, 2, (int64_t)(1 + rn(r, 60)), (int64_t)(chance(r, 50) ? 1 + rn(r, 4) : 1000000));
	plan_add(p, 'P', PA_MODE, 1, (int64_t)rn(r, 4));
}
#if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
static uint64_t stream_bytes;
static ssize_t st_write(void *ck, const char *b, size_t n)
{
	uint64_t *c = ck; size_t k = n;
	(void)b;
	if (fault_now(FK_STREAM)) { k = (*c & 3) == 0 ? 0 : (*c & 3) == 1 ? n / 2 : 0; (*c)++; if (!k) { errno = (*c & 4) ? ENOSPC : EIO; return 0; } }
	stream_bytes += k;
	return (ssize_t)k;
}
static FILE *streams[2];
static void c14_tick(Em *em)
{
	C04 *s = em->user; int i;
	for (i = 0; i < s->p->n; i++) {
		Line *l = s->p->l + i;
		if (l->k != 'C' || 1 + (int)((uint64_t)l->a[0] % (unsigned)s->total) != em->nticks) continue;
		sljit_compiler_verbose(em->c, l->a[1] == 2 ? NULL : streams[l->a[1] & 1]);
		STAT(ST_SNAPSHOT);
	}
}
static void c14_exec(Plan *p)
{
	Twin t; BuildOpt o; Code c; C04 s; uint64_t ck = 0, h; int i; long mode = (long)plan_par(p, PA_MODE, 0);
	cookie_io_functions_t io;
	os_armed = 1; memset(&o, 0, sizeof o);
	o.tick = count_tick; tick_total = 1;
	twin_make(p, &t, &o);
	world_clean("twin");
	memset(&io, 0, sizeof io); io.write = st_write;
	os_armed = 0;
	streams[0] = fopencookie(&ck, "w", io);
	streams[1] = fopencookie(&ck, "w", io);
	if (!streams[0] || !streams[1]) sim_harness_error("fopencookie");
	setvbuf(streams[0], NULL, mode & 1 ? _IONBF : _IOLBF, mode & 1 ? 0 : 128);
	setvbuf(streams[1], NULL, _IOFBF, 4096);
	os_armed = 1;
	faults_reset();
	for (i = 0; i < p->n; i++) if (p->l[i].k == 'F') faults_add(p->l[i].op, p->l[i].a[0], p->l[i].a[1]);
	memset(&o, 0, sizeof o); memset(&s, 0, sizeof s);
	s.p = p; s.total = tick_total; o.tick = c14_tick; o.user = &s; o.fail_ok = 1;
	stream_bytes = 0;
	if (!build(p, &c, &o)) sim_viol("verbose-fails", "compilation with verbose output failed with error %d", o.error);
	if ((long)fk_calls[FK_MALLOC] != t.mallocs || (long)fk_calls[FK_MMAP] != t.mmaps) sim_viol("verbose-memory", "%ld allocations instead of %ld", (long)fk_calls[FK_MALLOC], t.mallocs);
	code_same(&t.code, &c, "verbose");
	if (c.code == t.code.code && memcmp(t.bytes, CODE_PTR(c.code), t.nbytes)) sim_viol("verbose-code", "verbose output changed the generated code");
	h = prog_run(p, c.code);
	if (h != t.hash) sim_viol("verbose-code", "verbose output changed what the code computes");
	sim_ev(h); sim_ev(stream_bytes); sim_state(stream_bytes * 64 + fk_fired[FK_STREAM]);
	sljit_free_code(c.code, NULL);
	os_armed = 0;
	fclose(streams[0]); fclose(streams[1]);
	os_armed = 1;
	world_clean("verbose");
	twin_free(&t);
}
#endif

/* ---- C11: the machine is chosen by the driver (tools/mach.py), which runs every plan on several and compares ---- */
static void c11_gen(Plan *p, Rng *r)
{
	prog_gen(p, r, 1 + (int)rn(r, chance(r, 20) ? 60 : 20), FLAVOUR_CPU);
}
static void c11_exec(Plan *p)
{
	BuildOpt o; Code c; uint64_t h;
	memset(&o, 0, sizeof o);
	os_armed = 1;
	if (!build(p, &c, &o)) sim_viol("spurious-error", "compilation failed with error %d", o.error);
	code_check(&c, "machine");
	h = prog_run(p, c.code);
	sljit_free_code(c.code, NULL);
	world_clean("machine");
	sim_ev(h); sim_ev(sim_unsup);
	sim_state(h);
	os_armed = 0;
	printf("H %llu %016llx %016llx\n", (unsigned long long)p->seed, (unsigned long long)sim_unsup, (unsigned long long)h);
}

#include "c18.c"

const Prop sim_props[] = {
	{ "C01", c01_gen, c01_exec },
	{ "C02", c02_gen, c02_exec },
#ifdef SIM_THR
	{ "C03", c03_gen, c03_exec },
#endif
	{ "C04", c04_gen, c04_exec },
	{ "C05", c05_gen, c05_exec },
#if (defined SLJIT_UTIL_STACK && SLJIT_UTIL_STACK)
	{ "C06", c06_gen, c06_exec },
#endif
	{ "C07", c07_gen, c07_exec },
#ifndef SIM_THR
	{ "C08", c08_gen, c08_exec },
	{ "C09", c09_gen, c09_exec },
#endif
	{ "C10", c10_gen, c10_exec },
#if !(defined SLJIT_PROT_EXECUTABLE_ALLOCATOR && SLJIT_PROT_EXECUTABLE_ALLOCATOR) && !(defined SLJIT_WX_EXECUTABLE_ALLOCATOR && SLJIT_WX_EXECUTABLE_ALLOCATOR)
#else
	{ "C13", c13_gen, c13_exec },
#endif
#if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
	{ "C14", c14_gen, c14_exec },
#endif
	{ "C11", c11_gen, c11_exec },
	{ "C12", c12_gen, c12_exec },
	{ "C18", c18_gen, c18_exec },
	{ NULL, NULL, NULL }
};
