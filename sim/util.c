#include "util.h"

int build(const Plan *p, Code *out, BuildOpt *o)
{
	static Em em_store; Em *em = o->em ? o->em : &em_store;
	struct sljit_compiler *c; void *code; int e;
	uint64_t before = fk_fired_total;
	o->comp = NULL; o->error = 0; o->stage = 0;
	sim_phase = "create";
	c = sljit_create_compiler(sim_heap_cookie);
	if (!c) {
		if (fk_fired_total == before) sim_viol("spurious-error", "sljit_create_compiler failed without a fault");
		return 0;
	}
#if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
	if (sim_show) { sljit_compiler_verbose(c, stdout); }
#endif
	em_init(em, p);
	em->c = c; em->tick = o->tick; em->user = o->user; em->no_call = o->no_call; em->ro_enabled = !o->no_ro;
	sim_phase = "emit"; o->stage = 1;
	em_emit(em);
	c = em->c;
	sim_phase = "generate"; o->stage = 2;
	code = sljit_generate_code(c, o->gopt, o->gdata);
	e = sljit_get_compiler_error(c);
	if (em->err) {
		if (code) sim_viol("code-after-error", "sljit_generate_code returned code although the compiler had failed");
		if (e != em->err) sim_viol("error-not-sticky", "error %d became %d in sljit_generate_code", em->err, e);
	}
	if (!code) {
		void *again;
		if (e == SLJIT_SUCCESS || e == SLJIT_ERR_COMPILED) sim_viol("error-mismatch", "sljit_generate_code returned NULL with error %d", e);
		if (fk_fired_total == before && !o->fail_ok && !em->err) sim_viol("spurious-error", "sljit_generate_code failed with error %d without a fault", e);
		STAT(ST_GEN_FAIL);
		o->error = e;
		again = sljit_generate_code(c, o->gopt, o->gdata);
		if (again) sim_viol("error-not-sticky", "second sljit_generate_code returned code after error %d", e);
		if (sljit_get_compiler_error(c) != e) sim_viol("error-not-sticky", "error %d became %d", e, sljit_get_compiler_error(c));
		if (sljit_emit_op0(c, SLJIT_NOP) == SLJIT_SUCCESS || sljit_emit_label(c)) sim_viol("error-not-sticky", "emit accepted after error %d", e);
		sim_phase = "free";
		sljit_free_compiler(c);
		return 0;
	}
	if (e != SLJIT_ERR_COMPILED) sim_viol("error-mismatch", "code returned with error %d", e);
	if (fk_fired_total != before) STAT(ST_GEN_OK_FAULT);
	code_collect(em, out, code);
	out->err = 0;
	if (o->keep) o->comp = c;
	else { sim_phase = "free"; sljit_free_compiler(c); }
	sim_phase = "built";
	return 1;
}

void code_check(const Code *c, const char *where)
{
	uintptr_t b = (uintptr_t)CODE_PTR(c->code), e = b + c->size; int i;
	for (i = 0; i < c->nl; i++) if ((c->lab[i] & ~(sljit_uw)1) < b || c->lab[i] > e + 1) sim_viol("addr-range", "%s: label %d at offset %ld of %ld bytes", where, i, (long)(c->lab[i] - b), (long)c->size);
	for (i = 0; i < c->nj; i++) if (c->jmp[i] + (sljit_uw)c->eoff - (sljit_uw)c->eoff < b && 0) sim_viol("addr-range", "%s: jump", where);
	for (i = 1; i < c->nl; i++) if (c->lab[i] < c->lab[i - 1]) sim_viol("label-order", "%s: label %d is before label %d", where, i, i - 1);
}

void code_same(const Code *a, const Code *b, const char *where)
{
	sljit_uw ba = (sljit_uw)(uintptr_t)a->code, bb = (sljit_uw)(uintptr_t)b->code; int i;
	if (a->size != b->size) sim_viol("layout", "%s: code size %ld, expected %ld", where, (long)b->size, (long)a->size);
	if (a->nl != b->nl || a->nj != b->nj || a->nc != b->nc) sim_viol("layout", "%s: %d/%d/%d labels/jumps/constants, expected %d/%d/%d", where, b->nl, b->nj, b->nc, a->nl, a->nj, a->nc);
	for (i = 0; i < a->nl; i++) if (a->lab[i] - ba != b->lab[i] - bb) sim_viol("layout", "%s: label %d at %ld, expected %ld", where, i, (long)(b->lab[i] - bb), (long)(a->lab[i] - ba));
	for (i = 0; i < a->nj; i++) if (a->jmp[i] - ba != b->jmp[i] - bb) sim_viol("layout", "%s: jump %d at %ld, expected %ld", where, i, (long)(b->jmp[i] - bb), (long)(a->jmp[i] - ba));
	for (i = 0; i < a->nc; i++) if (a->cst[i] - ba != b->cst[i] - bb) sim_viol("layout", "%s: constant %d at %ld, expected %ld", where, i, (long)(b->cst[i] - bb), (long)(a->cst[i] - ba));
}

void world_clean(const char *where)
{
	sim_phase = "release";
	sljit_free_unused_memory_exec();
	if (os_mapped()) sim_viol("exec-leak", "%s: %d mappings left after all code was freed", where, os_mapped());
	if (os_fds()) sim_viol("fd-leak", "%s: %d descriptors left open", where, os_fds());
	heap_expect_live(0, where);
	{ long pg = os_pagesize; int a = os_armed; os_reset(); os_pagesize = pg; os_armed = a; }
	heap_reset(0xa5);
}

void twin_make(const Plan *p, Twin *t, BuildOpt *o)
{
	memset(t, 0, sizeof *t);
	faults_reset();
	if (!build(p, &t->code, o)) sim_viol("spurious-error", "fault free compilation failed with error %d", o->error);
	t->mallocs = (long)fk_calls[FK_MALLOC]; t->mmaps = (long)fk_calls[FK_MMAP];
	code_check(&t->code, "twin");
	t->nbytes = t->code.size;
	t->bytes = malloc(t->nbytes + 1);
	memcpy(t->bytes, CODE_PTR(t->code.code), t->nbytes);
	t->hash = prog_run(p, t->code.code);
	sim_ev(t->hash);
	sim_phase = "free-code";
	sljit_free_code(t->code.code, NULL);
}
void twin_free(Twin *t) { free(t->bytes); t->bytes = NULL; }
