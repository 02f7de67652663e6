/* ============ C03: threads ============ */
#include "thr.h"
enum { A3_COMPILE, A3_RUN, A3_FREECODE, A3_PATCH, A3_XALLOC, A3_XFREE, A3_UNUSED, A3_STACK, A3_REGEX, A3_SERIAL, A3_QUERY };
typedef struct { int used; Code *c; Plan *p; uint64_t hash; } T3Code;
typedef struct { T3Code k[6]; Em em; } T3;
static T3 *t3; static const Plan *t3_plan; static int t3_n;
typedef struct { Plan p; uint64_t hash; } T3Sub;
static T3Sub *t3_sub; static int t3_nsub;

static void c03_gen(Plan *p, Rng *r)
{
	int n = 2 + (int)rn(r, 3), i, k, na, warm = 0;
	plan_add(p, 'P', PA_N, 1, (int64_t)n);
	plan_add(p, 'P', PA_MODE, 1, (int64_t)rn(r, 3)); /* 0 cold, 1 warm library, 2 cold with a live block left */
	plan_add(p, 'P', PA_K, 1, (int64_t)rn(r, 1 << 20));
	plan_add(p, 'P', PA_EXTRA, 1, (int64_t)rn(r, 3)); /* placement */
	na = 2 + (int)rn(r, chance(r, 20) ? 24 : 10);
	if (chance(r, 30)) warm = 1; /* allocator only */
	for (i = 0; i < na; i++) {
		uint32_t x = rn(r, 100); int t = (int)rn(r, (uint32_t)n), op;
		if (warm) op = x < 50 ? A3_XALLOC : x < 85 ? A3_XFREE : x < 95 ? A3_UNUSED : A3_STACK;
		else op = x < 26 ? A3_COMPILE : x < 36 ? A3_RUN : x < 44 ? A3_FREECODE : x < 54 ? A3_PATCH : x < 70 ? A3_XALLOC : x < 80 ? A3_XFREE : x < 85 ? A3_UNUSED : x < 90 ? A3_STACK : x < 94 ? A3_REGEX : x < 98 ? A3_SERIAL : A3_QUERY;
		plan_add(p, 'A', op, 4, (int64_t)t, (int64_t)(rnd(r) >> 8), (int64_t)(chance(r, 20) ? 1 + rn(r, 200000) : chance(r, 50) ? 1 + rn(r, 300) : 1 + rn(r, 20000)), (int64_t)rn(r, 1 << 20));
	}
	k = chance(r, 12) ? 0 : 1 + (int)rn(r, chance(r, 30) ? 30 : 6);
	for (i = 0; i < k; i++) {
		int c = (int)rn(r, 10); c = c < 2 ? 0 : c < 6 ? 1 : 2;
		uint32_t lim = c == 0 ? (chance(r, 50) ? 300 : 20000) : c == 1 ? (chance(r, 50) ? 30 : 600) : (chance(r, 60) ? 30 : 200);
		plan_add(p, 'S', c, 3, (int64_t)rn(r, (uint32_t)n), (int64_t)(1 + rn(r, lim)), (int64_t)rn(r, (uint32_t)n));
	}
	if (chance(r, 25)) plan_add(p, 'S', 3, 2, (int64_t)rnd(r), (int64_t)(1 + rn(r, chance(r, 50) ? 4 : 60)));
	if (chance(r, 25)) for (i = 0, k = 1 + (int)rn(r, 3); i < k; i++) plan_add(p, 'F', chance(r, 60) ? FK_MALLOC : FK_MMAP, 2, (int64_t)(1 + rn(r, 60)), (int64_t)(chance(r, 70) ? 1 : 1 + rn(r, 4)));
}
static void c03_serial_tick(Em *em)
{
	/* one save and restore in the middle */
	struct sljit_compiler *c; sljit_uw size = 0, *buf;
	if (em->err || em->nticks != *(int *)em->user) return;
	buf = sljit_serialize_compiler(em->c, 0, &size);
	if (!buf) return;
	c = sljit_deserialize_compiler(buf, size, 0, sim_heap_cookie);
	sim_free(buf, NULL);
	if (c) { sljit_free_compiler(em->c); em->c = c; em->nam = 0; }
}
static int t3_build(T3 *t, T3Sub *s, Code *c, int serial)
{
	BuildOpt o; int at = serial;
	memset(&o, 0, sizeof o);
	o.em = &t->em;
	if (serial) { o.tick = c03_serial_tick; o.user = &at; o.fail_ok = 1; }
	return build(&s->p, c, &o);
}
static T3Sub *t3_sub_of(const Line *l, int i) { (void)l; return t3_sub + i; }
static void t3_regex(const Line *l)
{
	static const char *pats[] = { "a(b|c)*d", "[a-c]+x?b", "(ab|a)(bc)?", "a.b{1,3}c", "^ab*" };
	static const char *ins[] = { "abcbd", "xxaabxb", "abcabc", "zaxbbc", "abbb" };
	int k = (int)((uint64_t)l->a[1] % 5), j = (int)((uint64_t)l->a[3] % 5), err = 0, e1 = 0, i1 = 0, b; struct regex_machine *m; struct regex_match *q;
	uint64_t f = fk_fired_total;
	sim_phase = "regex_compile";
	m = regex_compile(pats[k], (int)strlen(pats[k]), 0, &err);
	if (!m) { if (fk_fired_total == f) sim_viol("spurious-error", "regex_compile failed"); return; }
	sim_phase = "regex_match";
	q = regex_begin_match(m);
	if (q) {
		static struct { int set, b, e; } known[5][5];
		regex_continue_match(q, ins[j], (int)strlen(ins[j]));
		b = regex_get_result(q, &e1, &i1);
		if (b < 0) e1 = 0;
		if (!known[k][j].set && !thr_active) { known[k][j].set = 1; known[k][j].b = b; known[k][j].e = e1; }
		else if (known[k][j].set && (known[k][j].b != b || known[k][j].e != e1)) sim_viol("wrong-result", "regular expression matched (%d,%d), alone (%d,%d)", b, e1, known[k][j].b, known[k][j].e);
		regex_free_match(q);
	}
	sim_phase = "regex_free";
	regex_free_machine(m);
}
static void t3_run(int t, T3Code *k, const char *what)
{
	uint64_t h;
	(void)t;
	h = prog_run(k->p, k->c->code);
	sim_ev(h);
	if (h != k->hash) sim_viol("wrong-result", "%s: a program computes something else than when its thread runs alone", what);
}
static void t3_freecode(T3Code *k) { Code *c = k->c; k->used = 0; sim_phase = "free-code"; sljit_free_code(c->code, NULL); free(c); }
static void t3_xfree(int j) { xb_verify(xb + j, "before free"); xb[j].live = 0; sim_phase = "free_exec"; sljit_free_exec(xb[j].rx); }
static void t3_action(int t, const Line *l, int i)
{
	T3 *T = t3 + t; int j, k, n;
	STAT(ST_ACTIONS);
	switch (l->op) {
	case A3_COMPILE: case A3_SERIAL: {
		T3Sub *s = t3_sub_of(l, i); Code *c; T3Code *q = NULL;
		for (j = 0; j < 6; j++) if (!T->k[j].used) { q = T->k + j; break; }
		if (!q) { q = T->k + (uint64_t)l->a[3] % 6; t3_freecode(q); }
		c = malloc(sizeof *c);
		if (!t3_build(T, s, c, l->op == A3_SERIAL ? 1 + (int)((uint64_t)l->a[3] % 12) : 0)) { STAT(ST_FAIL_SEEN); free(c); return; }
		q->used = 1; q->c = c; q->p = &s->p; q->hash = s->hash;
		t3_run(t, q, "after compiling");
		break; }
	case A3_RUN: for (j = 0; j < 6; j++) if (T->k[j].used) t3_run(t, T->k + j, "again"); break;
	case A3_FREECODE:
		for (j = 0, n = 0; j < 6; j++) n += T->k[j].used;
		if (!n) break;
		k = (int)((uint64_t)l->a[1] % (unsigned)n);
		for (j = 0; j < 6; j++) if (T->k[j].used && k-- == 0) break;
		t3_run(t, T->k + j, "before freeing"); t3_freecode(T->k + j);
		break;
	case A3_PATCH:
		for (j = 0; j < 6; j++) {
			Code *c; ConstSite *s;
			if (!T->k[j].used) continue;
			c = T->k[j].c;
			sim_phase = "patch";
			if (c->ncs) { s = c->cs + (uint64_t)l->a[1] % (unsigned)c->ncs; sljit_set_const(c->cst[s->idx], s->op, (sljit_sw)(int8_t)l->a[3], c->eoff); sljit_set_const(c->cst[s->idx], s->op, (sljit_sw)s->init, c->eoff); STAT(ST_PATCH_CONST); }
			for (k = 0; k < c->nrj; k++) if (!c->rj[k].kind && c->rj[k].nl > 1) {
				sljit_set_jump_addr(c->jmp[c->rj[k].idx], c->lab[c->rj[k].lab[1]], c->eoff); sljit_set_jump_addr(c->jmp[c->rj[k].idx], c->lab[c->rj[k].lab[0]], c->eoff); STAT(ST_PATCH_JUMP); }
			t3_run(t, T->k + j, "after patching back and forth");
		}
		break;
	case A3_XALLOC: {
		unsigned char *q; size_t sz = (size_t)l->a[2]; XBlk *b; sljit_sw eo; uint64_t f = fk_fired_total;
		if (nxb >= 1000 || sz == 0 || sz > (1u << 20)) break;
		sim_phase = "malloc_exec";
		q = sljit_malloc_exec(sz);
		if (!q) { if (fk_fired_total == f) sim_viol("spurious-null", "allocation of %lu bytes failed though the system refused nothing", (unsigned long)sz); break; }
		eo = EXOFF(q); /* may switch threads */
		b = xb + nxb++; sim_phase = "check";
		b->rw = q; b->rx = q + eo; b->size = sz; b->tag = (uint32_t)i * 2654435761u; b->live = 1 + t;
		xb_range(b->rw, sz, 2, "writable");
		for (j = 0; j < nxb - 1; j++) if (xb[j].live) {
			if (b->rw < xb[j].rw + xb[j].size && xb[j].rw < b->rw + sz) sim_viol("overlap", "two live blocks overlap");
			if (b->rx < xb[j].rx + xb[j].size && xb[j].rx < b->rx + sz) sim_viol("overlap", "two live blocks overlap (executable side)");
		}
		for (j = 0; j < t3_n; j++) for (k = 0; k < 6; k++) if (t3[j].k[k].used) { unsigned char *cb = CODE_PTR(t3[j].k[k].c->code); if (b->rx < cb + t3[j].k[k].c->size && cb < b->rx + sz) sim_viol("overlap", "a block overlaps live code"); }
		xb_fill(b);
		break; }
	case A3_XFREE:
		for (j = 0, n = 0; j < nxb; j++) n += xb[j].live == 1 + t;
		if (!n) break;
		k = (int)((uint64_t)l->a[1] % (unsigned)n);
		for (j = 0; j < nxb; j++) if (xb[j].live == 1 + t && k-- == 0) break;
		t3_xfree(j);
		break;
	case A3_UNUSED: sim_phase = "free_unused"; sljit_free_unused_memory_exec(); break;
	case A3_STACK: {
#if (defined SLJIT_UTIL_STACK && SLJIT_UTIL_STACK)
		struct sljit_stack *s; uint64_t f = fk_fired_total; sljit_uw lim = (sljit_uw)l->a[2], max = lim + (sljit_uw)((uint64_t)l->a[1] % 100000);
		sim_phase = "stack";
		s = sljit_allocate_stack(lim, max, sim_heap_cookie);
		if (!s) { if (fk_fired_total == f) sim_viol("spurious-null", "sljit_allocate_stack failed"); break; }
		memset(s->start, 0x5a, (size_t)(s->end - s->start));
		if (sljit_stack_resize(s, s->min_start)) memset(s->start, 0x5b, (size_t)(s->end - s->start));
		sljit_free_stack(s, sim_heap_cookie);
#endif
		break; }
	case A3_REGEX: t3_regex(l); break;
	default: sim_phase = "query"; for (j = 0; j < 12; j++) sim_ev((uint64_t)sljit_has_cpu_feature(j)); sim_ev((uint64_t)strlen(sljit_get_platform_name())); break;
	}
}
static void t3_thread(int t)
{
	int i, j;
	for (i = 0; i < t3_plan->n; i++) { const Line *l = t3_plan->l + i; if (l->k == 'A' && (int)((uint64_t)l->a[0] % (unsigned)t3_n) == t) t3_action(t, l, i); }
	for (j = 0; j < 6; j++) if (t3[t].k[j].used) { t3_run(t, t3[t].k + j, "at the end"); t3_freecode(t3[t].k + j); }
	for (j = 0; j < nxb; j++) if (xb[j].live == 1 + t) t3_xfree(j);
}
static void c03_exec(Plan *p)
{
	int i, j, mode = (int)plan_par(p, PA_MODE, 0); void *left = NULL; uint64_t a0 = thr_accesses;
	os_armed = 1; nxb = 0; xb_init(); thr_init(); thr_cold();
	t3_n = (int)plan_par(p, PA_N, 2); if (t3_n < 1) t3_n = 1; if (t3_n > THR_MAX) t3_n = THR_MAX;
	t3 = calloc(THR_MAX, sizeof *t3); t3_plan = p; t3_nsub = p->n; t3_sub = calloc((size_t)p->n + 1, sizeof *t3_sub);
	faults_reset();
	/* what every thread gets alone */
	for (i = 0; i < p->n; i++) {
		Line *l = p->l + i;
		if (l->k != 'A') continue;
		if (l->op == A3_COMPILE || l->op == A3_SERIAL) {
			Rng r; Code *c = malloc(sizeof *c); T3Sub *s = t3_sub_of(l, i);
			r.s = (uint64_t)l->a[1];
			prog_gen(&s->p, &r, 1 + (int)rn(&r, 14), (l->a[3] & 1) ? FLAVOUR_PATCH : FLAVOUR_ALL);
			if (!t3_build(t3, s, c, 0)) sim_viol("spurious-error", "fault free compilation failed");
			s->hash = prog_run(&s->p, c->code);
			sljit_free_code(c->code, NULL); free(c);
		} else if (l->op == A3_REGEX) t3_regex(l);
	}
	memset(t3, 0, sizeof *t3);
	world_clean("alone");
	if (mode != 1) thr_cold();
	{ Plan q = *p; Line ln[3]; memset(ln, 0, sizeof ln); ln[0].k = 'P'; ln[0].op = PA_MODE; ln[0].a[0] = plan_par(p, PA_EXTRA, 0); ln[1].k = 'P'; ln[1].op = PA_K; ln[1].a[0] = plan_par(p, PA_K, 1); q.l = ln; q.n = 2; c02_places(&q); }
	if (mode == 2) left = sljit_malloc_exec(100 + (size_t)plan_par(p, PA_K, 1) % 3000);
	faults_reset();
	for (i = 0; i < p->n; i++) if (p->l[i].k == 'F' && !(ALLOC_WX && p->l[i].op != FK_MALLOC)) faults_add(p->l[i].op, p->l[i].a[0], p->l[i].a[1]);
	thr_run(t3_n, t3_thread, p);
	STATN(ST_STEPS, thr_accesses - a0);
	faults_reset();
	thr_locks_free("joined");
	for (j = 0; j < nxb; j++) if (xb[j].live) sim_harness_error("block left");
	if (left) { sim_phase = "free_exec"; sljit_free_exec((unsigned char *)left + EXOFF(left)); }
	sim_state(sim_hash); 
	world_clean("threads");
	for (i = 0; i < p->n; i++) free(t3_sub[i].p.l);
	free(t3_sub); free(t3);
}
