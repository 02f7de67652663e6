/* ============ C18: code generation depends on nothing but the emit calls ============ */
/* included by props2.c */
enum { A18_BUILD, A18_OTHER, A18_FREEOTHER, A18_FAIL, A18_ABANDON, A18_UNUSED };
static void c18_gen(Plan *p, Rng *r)
{
	int i, n;
	prog_gen(p, r, 2 + (int)rn(r, chance(r, 20) ? 120 : 45), chance(r, 30) ? FLAVOUR_PATCH : FLAVOUR_ALL);
	prog_pressure(p, r);
	n = 2 + (int)rn(r, 6);
	for (i = 0; i < n; i++) {
		uint32_t x = rn(r, 100);
		/* BUILD: heap mode, stack mode, dirt | nested << 4 | fresh world << 8, nesting point */
		if (x < 58 || i == 0) plan_add(p, 'A', A18_BUILD, 4, (int64_t)rn(r, 8), (int64_t)rn(r, 6), (int64_t)((rn(r, 3) ? 1 : 0) | (chance(r, 35) ? 1 + rn(r, 3) : 0) << 4 | (uint64_t)chance(r, 60) << 8), (int64_t)(rnd(r) >> 3));
		else if (x < 70) plan_add(p, 'A', A18_OTHER, 1, (int64_t)rn(r, 1000000));
		else if (x < 76) plan_add(p, 'A', A18_FREEOTHER, 1, (int64_t)rn(r, 1000));
		else if (x < 86) plan_add(p, 'A', A18_FAIL, 2, (int64_t)(rnd(r) >> 3), (int64_t)rn(r, 2));
		else if (x < 94) plan_add(p, 'A', A18_ABANDON, 1, (int64_t)(rnd(r) >> 3));
		else plan_add(p, 'A', A18_UNUSED, 0);
	}
	plan_add(p, 'A', A18_BUILD, 4, (int64_t)rn(r, 8), (int64_t)rn(r, 6), (int64_t)(1 | 1 << 8), (int64_t)0);
}
/* leave something below the stack pointer */
static unsigned char c18_pattern[8192];
static void __attribute__((noinline)) stack_paint(int mode, uint64_t salt, size_t size)
{
	unsigned char buf[size]; Rng r; size_t i;
	if (!mode) return;
	r.s = salt;
	if (mode == 5 && !c18_pattern[0]) for (i = 0; i < sizeof c18_pattern; i++) c18_pattern[i] = (unsigned char)(rnd(&r) | (i == 0));
	switch (mode) {
	case 1: memset(buf, 0xff, size); break;
	case 2: memset(buf, 0, size); break;
	case 3: for (i = 0; i < size; i += 4) { uint32_t v = 1 + (uint32_t)((salt + i) % 31); memcpy(buf + i, &v, 4); } break;
	case 4: memset(buf, 0x01, size); break;
	default: memcpy(buf, c18_pattern + salt % 1024, size); break;
	}
	__asm__ volatile("" : : "r"(buf) : "memory");
}
static const int c18_fill[8] = { 0, 0xff, 0x01, 0x80, 0x5a, -1, -1, -2 };
typedef struct { const Plan *p; int stack, nest, at, live; uint64_t salt; Code inner; uint64_t want; } C18;
static Em c18_em;
static void c18_tick(Em *em)
{
	C18 *s = em->user;
	if (s->nest && em->nticks == s->at) {
		BuildOpt o; const char *ph = sim_phase;
		s->nest--; 
		memset(&o, 0, sizeof o);
		o.em = &c18_em;
		if (s->live) { sljit_free_code(s->inner.code, NULL); s->live = 0; }
		if (!build(s->p, &s->inner, &o)) sim_viol("spurious-error", "a compilation inside another failed with error %d", o.error);
		s->live = 1;
		if (prog_run(s->p, s->inner.code) != s->want) sim_viol("depends", "code generated while another compiler is in use computes something else");
		s->at += 1 + (int)(s->salt % 7);
		sim_phase = ph;
	}
	stack_paint(s->stack, s->salt + (uint64_t)em->nticks, em->nticks % 16 ? 1280 : 6144);
}
/* garbage where the next code will be */
static void c18_dirt(size_t size, uint64_t salt)
{
	unsigned char *q; Rng r; size_t i; sljit_sw off;
	if (ALLOC_WX) return;
	q = sljit_malloc_exec(size);
	if (!q) return;
	off = EXOFF(q);
	r.s = salt;

	for (i = 0; i < size; i++) q[i] = (unsigned char)rnd(&r);
	sljit_free_exec(q + off);
}
static void c18_exec(Plan *p)
{
	Twin t; BuildOpt o; Code c; int i, k, same; uint64_t h;
	os_armed = 1; memset(&o, 0, sizeof o); ndist = 0;
	o.tick = count_tick; tick_total = 1;
	far_setup(p);
	twin_make(p, &t, &o);
	world_clean("twin");
	for (i = 0; i < p->n; i++) {
		Line *l = p->l + i; C18 s;
		if (l->k != 'A') continue;
		STAT(ST_ACTIONS);
		switch (l->op) {
		case A18_BUILD:
			if (l->a[2] >> 8 & 1) {
				while (ndist) { ndist--; sljit_free_code(dist[ndist].code, NULL); }
				world_clean("history");
			}
			heap_mode(c18_fill[l->a[0] & 7], p->seed + (uint64_t)i);
			if (l->a[2] & 1) c18_dirt(t.nbytes + 16, p->seed * 7 + (uint64_t)i);
			memset(&o, 0, sizeof o); memset(&s, 0, sizeof s);
			s.p = p; s.stack = (int)(l->a[1] % 6); s.nest = (int)(l->a[2] >> 4 & 3); s.at = 1 + (int)((uint64_t)l->a[3] % (unsigned)tick_total);
			s.salt = p->seed ^ (uint64_t)i * 0x9e3779b97f4a7c15ull; s.want = t.hash;
			o.tick = c18_tick; o.user = &s;
			stack_paint(s.stack, s.salt, 6144);
			if (!build(p, &c, &o)) sim_viol("depends", "the compilation fails with error %d where it succeeded before", o.error);
			code_check(&c, "after a history");
			same = c.code == t.code.code && c.eoff == t.code.eoff;
			if (same) {
				STAT(ST_RETRY_OK);
				code_same(&t.code, &c, "after a history");
				if (memcmp(t.bytes, CODE_PTR(c.code), t.nbytes)) { size_t q = 0; while (t.bytes[q] == CODE_PTR(c.code)[q]) q++; sim_viol("depends", "the same calls generated different code (byte %lu of %lu, heap mode %d, stack mode %d)", (unsigned long)q, (unsigned long)t.nbytes, (int)(l->a[0] & 7), s.stack); }
			}
			h = prog_run(p, c.code);
			if (h != t.hash) sim_viol("depends", "the same calls generated code that computes something else");
			sim_ev(h); sim_ev((uint64_t)same); sim_state((uint64_t)l->a[0] * 31 + (uint64_t)l->a[1] * 7 + (uint64_t)same + (uint64_t)ndist * 1009 + t.hash);
			if (s.live) {
				if (prog_run(p, s.inner.code) != t.hash) sim_viol("depends", "code generated inside another compilation computes something else later");
				sljit_free_code(s.inner.code, NULL);
			}
			sljit_free_code(c.code, NULL);
			break;
		case A18_OTHER: sim_phase = "disturb"; if (!disturb((int)l->a[0])) sim_viol("spurious-error", "unrelated compilation failed"); break;
		case A18_FREEOTHER: if (ndist) { k = (int)((uint64_t)l->a[0] % (unsigned)ndist); dist_check(k); sljit_free_code(dist[k].code, NULL); dist[k] = dist[--ndist]; } break;
		case A18_FAIL:
			memset(&o, 0, sizeof o);
			faults_reset();
			faults_add(l->a[1] ? FK_MMAP : FK_MALLOC, 1 + (int64_t)((uint64_t)l->a[0] % (uint64_t)(l->a[1] ? 2 : t.mallocs + 1)), 1);
			if (build(p, &c, &o)) { if (prog_run(p, c.code) != t.hash) sim_viol("depends", "code computes something else"); sljit_free_code(c.code, NULL); }
			faults_reset();
			break;
		case A18_ABANDON: {
			struct sljit_compiler *cc = sljit_create_compiler(sim_heap_cookie); const char *ph = sim_phase;
			if (!cc) sim_viol("spurious-error", "sljit_create_compiler failed");
			sim_phase = "abandon";
			em_init(&c18_em, p); c18_em.c = cc; c18_em.ro_enabled = 1;
			em_emit(&c18_em);
			sljit_free_compiler(cc);
			sim_phase = ph;
			break; }
		default: sim_phase = "free-unused"; sljit_free_unused_memory_exec(); break;
		}
	}
	while (ndist) { ndist--; dist_check(ndist); sljit_free_code(dist[ndist].code, NULL); }
	far_release();
	world_clean("end");
	twin_free(&t);
}
