/* Program generator and emitter: a plan's 'O' lines are decoded, whatever
   their arguments are, into valid sequences of sljit API calls, so that any
   subset of the lines is again a valid program (needed for minimisation). */
#include "prog.h"

unsigned char sim_st[ST_SIZE] __attribute__((aligned(4096), section(".simst"))) = { 1 }; /* at the same address in every build */
int sim_cb_count; void (*sim_cb_hook)(void);
uint64_t prog_kinds_used;

#define WB ((int)sizeof(sljit_sw))
#define IS64 (sizeof(sljit_sw) == 8)
#define ST ((sljit_sw)(uintptr_t)sim_st)
#define MS(off) SLJIT_MEM1(SLJIT_S0), (sljit_sw)(off)

/* ---------------- callbacks ---------------- */
static void mix(uint64_t v) { uint64_t *p = (uint64_t *)(void *)(sim_st + OFF_ARG + 64); *p = (*p ^ v) * 0x100000001b3ull + 1; sim_cb_count++; if (sim_cb_hook) sim_cb_hook(); }
static uint64_t d2u(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static uint32_t f2u(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
static sljit_sw SLJIT_FUNC cb_ww(sljit_sw a, sljit_sw b) { mix((uint64_t)a * 3 + (uint64_t)b); return (sljit_sw)(a ^ (b + 7)); }
static sljit_f64 SLJIT_FUNC cb_f(sljit_f64 a, sljit_sw b, sljit_f32 c) { mix(d2u(a) + (uint64_t)b * 5 + f2u(c)); return (sljit_f64)(b & 0xfff) + 0.5; }
static sljit_s32 SLJIT_FUNC cb_32(sljit_s32 a, sljit_sw b, sljit_s32 c, sljit_sw d) { mix((uint64_t)(uint32_t)a * 7 + (uint64_t)b * 11 + (uint64_t)(uint32_t)c * 13 + (uint64_t)d); return a - c; }
static void SLJIT_FUNC cb_v(sljit_sw a, sljit_f64 b, sljit_sw c, sljit_f32 d) { mix((uint64_t)a + d2u(b) * 3 + (uint64_t)c * 5 + f2u(d) * 7u); }
static sljit_sw SLJIT_FUNC cb_0(void) { mix(99); return 0x1234; }
static sljit_f32 SLJIT_FUNC cb_f4(sljit_f32 a, sljit_f32 b, sljit_f64 c, sljit_f64 d) { mix(f2u(a) + f2u(b) * 3u + d2u(c) * 5 + d2u(d) * 7); return 2.25f; }

#define TAGFN(n) void SLJIT_FUNC sim_tagfn##n(void *st, sljit_sw slot); void SLJIT_FUNC sim_tagfn##n(void *st, sljit_sw slot) { uint64_t v = 0x7a60u + n; memcpy((char *)st + OFF_CS + slot * 8, &v, 8); sim_cb_count++; if (sim_cb_hook) sim_cb_hook(); }
TAGFN(0) TAGFN(1) TAGFN(2) TAGFN(3)
void *sim_tagfns[4] = { (void *)sim_tagfn0, (void *)sim_tagfn1, (void *)sim_tagfn2, (void *)sim_tagfn3 };
sljit_uw sim_farjmp_addr[4]; sljit_uw sim_tagfn_addr[4]; /* overridden targets (far placement), 0: the C functions */

/* ---------------- handles ---------------- */
struct sljit_label *em_label_n(struct sljit_compiler *c, int i)
{
	struct sljit_label *l = sljit_get_first_label(c);
	while (l && i--) l = sljit_get_next_label(l);
	return l;
}
struct sljit_jump *em_jump_n(struct sljit_compiler *c, int i)
{
	struct sljit_jump *l = sljit_get_first_jump(c);
	while (l && i--) l = sljit_get_next_jump(l);
	return l;
}
struct sljit_const *em_const_n(struct sljit_compiler *c, int i)
{
	struct sljit_const *l = sljit_get_first_const(c);
	while (l && i--) l = sljit_get_next_const(l);
	return l;
}

/* what the running machine does not support (results are only compared between machines with the same list) */
uint64_t sim_unsup; int prog_nofp;
static void unsup(Em *em, int what) { STAT(ST_UNSUPP); sim_unsup = (sim_unsup ^ (uint64_t)(what + 1)) * 0x100000001b3ull + (uint64_t)em->nticks + 1; }
int prog_sig(const Plan *p) { int s = (int)plan_par(p, PA_SIG, 0); return prog_nofp && s > 1 ? s & 1 : s; }
/* ---------------- API call wrappers ---------------- */
static void tick(Em *em) { em->nticks++; if (em->tick) em->tick(em); }
static void ret_check(Em *em, int r, int ptr_null, int is_ptr)
{
	int ce = sljit_get_compiler_error(em->c);
	if (em->err) {
		if (ce != em->err) sim_viol("error-not-sticky", "compiler error changed from %d to %d", em->err, ce);
		if (is_ptr ? !ptr_null : r != em->err) sim_viol("error-not-sticky", "a call after the failure returned %d (error %d)", is_ptr ? !ptr_null : r, em->err);
		return;
	}
	if (is_ptr ? ptr_null : r != SLJIT_SUCCESS) {
		if (!is_ptr && r != ce) sim_viol("error-mismatch", "call returned %d but the compiler error is %d", r, ce);
		if (ce == SLJIT_SUCCESS) sim_viol("error-mismatch", "call failed without a compiler error");
	}
	if (ce != SLJIT_SUCCESS) {
		if (ce == SLJIT_ERR_ALLOC_FAILED && fk_fired[FK_MALLOC]) { em->err = ce; STAT(ST_FAIL_SEEN); return; }
		if (ce == SLJIT_ERR_ALLOC_FAILED) sim_viol("spurious-error", "allocation error without a failed allocation");
		sim_viol("bad-argument", "valid call rejected with error %d after %d calls", ce, em->nticks);
	}
}
/* a form the test call reports as unavailable is refused, and nothing is emitted */
static void refused(Em *em, int r, sljit_uw size)
{
	if (em->err || sljit_get_compiler_error(em->c) != SLJIT_SUCCESS) return;
	if (r != SLJIT_ERR_UNSUPPORTED) sim_viol("unsupported-accepted", "a form that the test call reports as unavailable returned %d when emitted", r);
	if (em->c->size != size) sim_viol("unsupported-emitted", "a refused call emitted %ld units", (long)(em->c->size - size));
}
/* emit the call if the same call with its test flag succeeds; its value tells that */
#define T(id, testcall, call) ({ int ok_ = (testcall) == SLJIT_SUCCESS; if (ok_) E(call); else { sljit_uw sz_; int r_; unsup(em, id); sz_ = em->c->size; r_ = (call); refused(em, r_, sz_); } ok_; })
#define E(call) do { tick(em); ret_check(em, (call), 0, 0); STAT(ST_OPS); } while (0)
static int new_label(Em *em)
{
	struct sljit_label *l;
	tick(em); l = sljit_emit_label(em->c); ret_check(em, 0, !l, 1);
	return l ? (int)sljit_get_label_index(l) : -1;
}
static int reg_jump(Em *em, struct sljit_jump *j)
{
	int n = 0; struct sljit_jump *k;
	ret_check(em, 0, !j, 1);
	if (!j) return -1;
	for (k = sljit_get_first_jump(em->c); k && k != j; k = sljit_get_next_jump(k)) n++;
	if (!k) sim_viol("jump-list", "a created jump is not enumerated");
	return n;
}
#define J(var, call) do { struct sljit_jump *j_; tick(em); j_ = (call); var = reg_jump(em, j_); STAT(ST_OPS); } while (0)
static void set_lab(Em *em, int j, int l)
{
	struct sljit_jump *jp; struct sljit_label *lp;
	tick(em);
	if (j < 0 || l < 0) { sljit_set_label(NULL, NULL); return; }
	jp = em_jump_n(em->c, j); lp = em_label_n(em->c, l);
	if (!jp || !lp) sim_viol("enumeration", "label %d or jump %d is no longer enumerated", l, j);
	sljit_set_label(jp, lp);
}
static void set_tgt(Em *em, int j, sljit_uw t)
{
	struct sljit_jump *jp;
	tick(em);
	if (j < 0) { sljit_set_target(NULL, t); return; }
	jp = em_jump_n(em->c, j);
	if (!jp) sim_viol("enumeration", "jump %d is no longer enumerated", j);
	sljit_set_target(jp, t);
}

/* ---------------- operands ---------------- */
typedef struct { sljit_s32 r; sljit_sw w; } Opd;
static int is_busy(Em *em, int r) { for (int i = 0; i < em->nbusy; i++) if (em->busy[i] == r) return 1; return 0; }
static void mk_busy(Em *em, int r) { if (em->nbusy < 8) { em->baddr[em->nbusy] = 0; em->busy[em->nbusy++] = r; } }
static void mk_addr(Em *em, int r) { mk_busy(em, r); em->baddr[em->nbusy - 1] = 1; }
static int is_addr(Em *em, int r) { for (int i = 0; i < em->nbusy; i++) if (em->busy[i] == r && em->baddr[i]) return 1; return 0; }
static int n_nonaddr(Em *em) { int n = 0; for (int i = 0; i < em->ngp; i++) n += !is_addr(em, em->gp[i]); return n; }
static int rsel(Em *em, int64_t x)
{
	unsigned k = (unsigned)((uint64_t)x % (unsigned)em->ngp);
	for (int i = 0; i < em->ngp; i++) { int r = em->gp[(k + (unsigned)i) % (unsigned)em->ngp]; if (!is_busy(em, r)) return r; }
	for (int i = 0; i < em->ngp; i++) { int r = em->gp[(k + (unsigned)i) % (unsigned)em->ngp]; if (!is_addr(em, r)) return r; }
	return em->gp[k];
}
/* a non virtual register; -1 if none is free */
static int psel(Em *em, int64_t x)
{
	unsigned k = (unsigned)((uint64_t)x % (unsigned)em->ngp);
	for (int i = 0; i < em->ngp; i++) {
		int r = em->gp[(k + (unsigned)i) % (unsigned)em->ngp];
		if (!is_busy(em, r) && sljit_get_register_index(SLJIT_GP_REGISTER, r) >= 0) return r;
	}
	return -1;
}
static int fsel(Em *em, int64_t x, int f32) /* even positions hold f64, odd ones f32 */
{
	int n = f32 ? em->nfp / 2 : (em->nfp + 1) / 2;
	if (n == 0) return -1;
	return em->fp[((uint64_t)x % (unsigned)n) * 2 + (unsigned)f32];
}
static sljit_sw imm_of(int64_t x)
{
	static const int64_t t[] = { 0, 1, -1, 2, -2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, -128, -129, 255, 256, 511, 512, 1023, 1024, 2047, 2048, -2048, -2049,
		4095, 4096, -4096, 0x7fff, 0x8000, -0x8000, -0x8001, 0xffff, 0x10000, 0x12345, 0x7fffff, 0xff0000, 0x55555555, 0x7fffffff, 0x80000000ll, -0x80000000ll, 0xffffffffll, 0x100000000ll,
		0x123456789abcdefll, 0x7fffffffffffffffll, (int64_t)0x8000000000000000ull, 0x00ff00ff00ff00ffll, 0x1000000000ll, 0xffff0000ffffll, -0x123456789ll, 0x12340000, 0xf000000f };
	uint64_t u = (uint64_t)x;
	switch (u & 7) {
	case 0: case 1: case 2: return (sljit_sw)t[(u >> 3) % (sizeof t / sizeof *t)];
	case 3: return (sljit_sw)((int64_t)1 << ((u >> 3) & 63));
	case 4: return (sljit_sw)(int8_t)(u >> 3);
	case 5: return (sljit_sw)(int16_t)(u >> 3);
	case 6: return (sljit_sw)(int32_t)(u >> 3);
	default: return (sljit_sw)(u >> 3) * (sljit_sw)0x9e3779b1;
	}
}
static Opd mem_opd(Em *em, uint64_t x, int area, int nslots, int slotsize)
{
	Opd o; sljit_sw off = area + (sljit_sw)((x >> 8) % (unsigned)nslots) * slotsize;
	unsigned form = (unsigned)(x & 15);
	int b, i;
	if (form < 6) { o.r = SLJIT_MEM1(SLJIT_S0); o.w = off; return o; }
	if (form < 8) { o.r = SLJIT_MEM0(); o.w = ST + off; return o; }
	if (form == 8 && em->local >= 64) { o.r = SLJIT_MEM1(SLJIT_SP); o.w = (sljit_sw)((x >> 8) % 6) * 8; if (slotsize == 8 && area != OFF_V) return o; o.r = SLJIT_MEM1(SLJIT_S0); o.w = off; return o; }
	if (form < 12) { /* base register with displacement */
		static const sljit_sw disp[] = { 0, 8, -8, 128, -256, 4088, -4096, 0x8000, -0x8000, 0x12340, 0x100000, -0x7ffff8, 0x12345678, 2040, -2048, 248 };
		sljit_sw d = disp[(x >> 40) & 15];
		b = n_nonaddr(em) >= 2 ? psel(em, (int64_t)(x >> 20)) : -1; /* a value register must remain */
		if (b < 0) { o.r = SLJIT_MEM1(SLJIT_S0); o.w = off; return o; }
		E(sljit_emit_op1(em->c, SLJIT_MOV, b, 0, SLJIT_IMM, ST + off - d));
		mk_addr(em, b);
		o.r = SLJIT_MEM1(b); o.w = d; return o;
	}
	b = n_nonaddr(em) >= 3 ? psel(em, (int64_t)(x >> 20)) : -1;
	if (b >= 0) mk_busy(em, b);
	i = psel(em, (int64_t)(x >> 28));
	if (b < 0 || i < 0) { o.r = SLJIT_MEM1(SLJIT_S0); o.w = off; return o; }
	{
		int sh = (int)((x >> 40) & 3);
		sljit_sw idx = (sljit_sw)((x >> 44) % 24) * 8;
		mk_busy(em, i);
		for (int q = 0; q < em->nbusy; q++) if (em->busy[q] == b || em->busy[q] == i) em->baddr[q] = 1;
		E(sljit_emit_op1(em->c, SLJIT_MOV, i, 0, SLJIT_IMM, idx >> sh));
		E(sljit_emit_op2(em->c, SLJIT_ADD, b, 0, SLJIT_S0, 0, SLJIT_IMM, off - ((idx >> sh) << sh)));
		o.r = SLJIT_MEM2(b, i); o.w = sh; return o;
	}
}
static Opd src_opd(Em *em, uint64_t sel, int64_t val, int allow_imm)
{
	Opd o;
	switch (sel & 7) {
	case 0: case 1: case 2: case 3: o.r = rsel(em, (int64_t)(sel >> 3)); o.w = 0; return o;
	case 4: case 5: if (allow_imm) { o.r = SLJIT_IMM; o.w = imm_of(val); return o; } /* fall through */
	default: return mem_opd(em, (uint64_t)val, OFF_W, 60, 8);
	}
}
static Opd dst_opd(Em *em, uint64_t sel, int64_t val)
{
	Opd o;
	if ((sel & 7) < 6) { o.r = rsel(em, (int64_t)(sel >> 3)); o.w = 0; return o; }
	return mem_opd(em, (uint64_t)val, OFF_W, 60, 8);
}
#define ISREG(o) (SLJIT_IS_REG((o).r))
/* 32 bit operations only take results of 32 bit operations */
/* a register source that will be truncated must not become an address register */
static void keep_opd(Em *em, Opd o) { if (ISREG(o)) mk_busy(em, o.r); }
static void conv32(Em *em, Opd o) { if (IS64 && ISREG(o)) E(sljit_emit_op1(em->c, SLJIT_MOV32, o.r, 0, o.r, 0)); }
static void back32(Em *em, Opd o, int sg) { if (IS64 && ISREG(o)) E(sljit_emit_op1(em->c, sg ? SLJIT_MOV_S32 : SLJIT_MOV_U32, o.r, 0, o.r, 0)); }

static void fconst(Em *em, int i) /* position i of fp[] */
{
	if (i & 1) E(sljit_emit_fset32(em->c, em->fp[i], (sljit_f32)(i * 3) + 0.25f));
	else E(sljit_emit_fset64(em->c, em->fp[i], (sljit_f64)(i * 5) - 1.5));
}
static void refresh_scratch(Em *em, int keep)
{
	for (int i = 0; i < em->nscr; i++) if (SLJIT_R(i) != keep) E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_R(i), 0, SLJIT_IMM, imm_of(i * 977 + 5 + em->nops)));
	for (int i = 0; i < em->nfp && i < em->nfs; i++) fconst(em, i);
}

static int alloc_slot(Em *em) { return em->nslot < NSLOT ? em->nslot++ : -1; }
static void store_slot_tag(Em *em, int slot, int tag)
{
	if (IS64) { E(sljit_emit_op1(em->c, SLJIT_MOV, MS(OFF_CS + slot * 8), SLJIT_IMM, tag)); }
	else E(sljit_emit_op1(em->c, SLJIT_MOV, MS(OFF_CS + slot * 8), SLJIT_IMM, tag));
}

static void bind_pending(Em *em, int id) /* id < 0: all */
{
	int l = -2, k = 0;
	for (int i = 0; i < em->npend; i++) {
		if (id >= 0 && em->pendid[i] != id) { em->pend[k] = em->pend[i]; em->pendid[k++] = em->pendid[i]; continue; }
		if (l == -2) l = new_label(em);
		set_lab(em, em->pend[i], l);
	}
	em->npend = k;
}
static void pend_jump(Em *em, int j, int64_t id)
{
	if (em->npend == 64) bind_pending(em, -1);
	em->pend[em->npend] = j; em->pendid[em->npend++] = (int)((uint64_t)id % 8);
}

/* consumers of the status flags */
static void consume(Em *em, int type, int is32, uint64_t x, int carry)
{
	int r = rsel(em, (int64_t)(x >> 8)), j;
	unsigned how = (unsigned)(x & 7);
	if ((x >> 4 & 3) == 1) E(sljit_emit_op1(em->c, SLJIT_MOV, rsel(em, (int64_t)(x >> 20)), 0, SLJIT_IMM, imm_of((int64_t)(x >> 24)))); /* MOV keeps the flags */
	(void)is32; (void)carry;
	switch (how) {
	case 0: case 1: E(sljit_emit_op_flags(em->c, SLJIT_MOV, r, 0, type)); break;
	case 2: E(sljit_emit_op_flags(em->c, SLJIT_MOV, MS(OFF_W + (sljit_sw)(x >> 30 & 31) * 8), type)); break;
	case 3: E(sljit_emit_op_flags(em->c, (x >> 30 & 1) ? SLJIT_OR : (x >> 31 & 1) ? SLJIT_AND : SLJIT_XOR, r, 0, type)); break;
	case 4: { int r2 = rsel(em, (int64_t)(x >> 12)), r3 = rsel(em, (int64_t)(x >> 16));
		if (x >> 33 & 1) E(sljit_emit_select(em->c, type, r, SLJIT_IMM, imm_of((int64_t)(x >> 40)), r3));
		else if (x >> 34 & 1) E(sljit_emit_select(em->c, type, r, MS(OFF_W + (sljit_sw)(x >> 40 & 31) * 8), r3));
		else E(sljit_emit_select(em->c, type, r, r2, 0, r3));
		break; }
	case 5: { int f = fsel(em, (int64_t)(x >> 12), 0), f2 = fsel(em, (int64_t)(x >> 16), 0);
		if (f < 0) break;
		E(sljit_emit_fselect(em->c, type, f, f2, 0, fsel(em, (int64_t)(x >> 20), 0)));
		break; }
	default:
		J(j, sljit_emit_jump(em->c, type));
		E(sljit_emit_op2(em->c, SLJIT_XOR, r, 0, r, 0, SLJIT_IMM, 0x55));
		set_lab(em, j, new_label(em));
		break;
	}
}

/* the generated code checks a value of its own and remembers that it was wrong */
static void must_eq(Em *em, int r, int s, sljit_sw sw, int id)
{
	int j;
	J(j, sljit_emit_cmp(em->c, SLJIT_EQUAL, r, 0, s, sw));
	E(sljit_emit_op1(em->c, SLJIT_MOV, MS(OFF_BAD), SLJIT_IMM, id));
	set_lab(em, j, new_label(em));
}
static void amem_check(Em *em)
{
	if (em->am_owner != em->c) { em->nam = 0; em->am_owner = em->c; } /* the areas went with their compiler */
	for (int i = 0; i < em->nam; i++) for (int k = 0; k < em->am[i].len; k++)
		if (em->am[i].p[k] != (unsigned char)(em->am[i].pat + k)) sim_viol("alloc-memory", "byte %d of a %d byte area from sljit_alloc_memory was changed", k, em->am[i].len);
}
static const int rettype[4] = { SLJIT_ARG_TYPE_W, SLJIT_ARG_TYPE_32, SLJIT_ARG_TYPE_F64, SLJIT_ARG_TYPE_F32 };
static int fn_ret(const Em *em, int fn) { return fn && !prog_nofp ? (int)(plan_par(em->plan, PA_CONV + fn, 0) / 3 % 4) : 0; }
/* return a value of the type that the function has */
static void em_return(Em *em, uint64_t x)
{
	static const int ops[] = { SLJIT_MOV, SLJIT_MOV, SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV_S8, SLJIT_MOV_U16, SLJIT_MOV_S16, SLJIT_MOV_U32, SLJIT_MOV_S32, SLJIT_MOV };
	static const int ops32[] = { SLJIT_MOV32, SLJIT_MOV32, SLJIT_MOV32, SLJIT_MOV32_U8, SLJIT_MOV32_S8, SLJIT_MOV32_U16, SLJIT_MOV32_S16, SLJIT_MOV32 };
	Opd s; int rt = fn_ret(em, em->fn);
	if (x >> 60 & 1) { /* continue at the return address by hand */
		int q = psel(em, (int64_t)(x >> 8));
		if (q >= 0 && q != SLJIT_R0) {
			if (rt == 0) E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, (sljit_sw)(x >> 20 & 0xffff)));
			else rt = -1;
			if (rt == 0) {
				E(sljit_emit_op0(em->c, SLJIT_SKIP_FRAMES_BEFORE_RETURN));
				if (x >> 59 & 1) { E(sljit_emit_op_dst(em->c, SLJIT_GET_RETURN_ADDRESS, SLJIT_MEM1(SLJIT_SP), 72)); E(sljit_emit_return_to(em->c, SLJIT_MEM1(SLJIT_SP), 72)); }
				else { E(sljit_emit_op_dst(em->c, SLJIT_GET_RETURN_ADDRESS, q, 0)); E(sljit_emit_return_to(em->c, q, 0)); }
				return;
			}
			rt = fn_ret(em, em->fn);
		}
	}
	switch (rt) {
	case 1: s = src_opd(em, x >> 8, (int64_t)(x >> 16), 1); conv32(em, s); E(sljit_emit_return(em->c, ops32[x >> 50 & 7], s.r, s.w)); if (ISREG(s)) back32(em, s, 0); break;
	case 2: case 3: {
		int f = fsel(em, (int64_t)(x >> 4), rt == 3);
		if (f < 0) f = fsel(em, 0, rt == 3);
		if (x & 3) { s.r = f; s.w = 0; } else s = mem_opd(em, x >> 8, rt == 3 ? OFF_F32 : OFF_F64, 60, 8);
		E(sljit_emit_return(em->c, rt == 3 ? SLJIT_MOV_F32 : SLJIT_MOV_F64, s.r, s.w));
		break; }
	default: s = src_opd(em, x >> 8, (int64_t)(x >> 16), 1); E(sljit_emit_return(em->c, ops[x % 10], s.r, s.w)); break;
	}
	em->nbusy = 0;
}

static void fn_enter(Em *em, int fn)
{
	const Plan *p = em->plan; int nscr, nsav, nfs, nfsav, nvs, opt = 0, sig, i;
	sljit_s32 args;
	nscr = (int)plan_par(p, PA_NSCR + fn, 4); nsav = (int)plan_par(p, PA_NSAV + fn, 3);
	nfs = (int)plan_par(p, PA_NFS + fn, 4); nfsav = (int)plan_par(p, PA_NFSAV + fn, 0); nvs = (int)plan_par(p, PA_NVS + fn, 0);
	if (nsav < 1) nsav = 1;
	if (nsav > SLJIT_NUMBER_OF_SAVED_REGISTERS) nsav = SLJIT_NUMBER_OF_SAVED_REGISTERS;
	if (nscr < 4) nscr = 4;
	if (nscr > SLJIT_NUMBER_OF_REGISTERS - nsav) nscr = SLJIT_NUMBER_OF_REGISTERS - nsav;
	if (nfsav > SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS) nfsav = SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS;
	if (nfs < 2) nfs = 2;
	if (nfs > SLJIT_NUMBER_OF_FLOAT_REGISTERS - nfsav) nfs = SLJIT_NUMBER_OF_FLOAT_REGISTERS - nfsav;
	if (nvs > nfs) nvs = nfs;
	if (nvs > SLJIT_NUMBER_OF_VECTOR_REGISTERS) nvs = SLJIT_NUMBER_OF_VECTOR_REGISTERS;
	if (nvs && !sljit_has_cpu_feature(SLJIT_HAS_SIMD)) { nvs = 0; unsup(em, 1); }
	if (prog_nofp) { nfs = nfsav = nvs = 0; unsup(em, 2); }
	em->local = (int)plan_par(p, PA_FNLOCAL + fn, 96);
	if (em->local < 96) em->local = 96;
	if (em->local > 65536) em->local = 65536;
	sig = prog_sig(p);
	em->fn = fn;
	if (fn == 0) {
		if (sig == 1 || sig == 3) { if (nsav < 4) nsav = 4; if (nscr > SLJIT_NUMBER_OF_REGISTERS - nsav) nscr = SLJIT_NUMBER_OF_REGISTERS - nsav; }
		if (sig == 2 && nsav < 2) nsav = 2;
		switch (sig) {
		default: args = SLJIT_ARGS1(W, P); break;
		case 1: args = SLJIT_ARGS4(W, P, W, W, W); break;
		case 2: args = SLJIT_ARGS4(W, P, F64, W, F32); break;
		case 3: args = SLJIT_ARGS4(W, P, 32, F64, 32); break;
		case 4: args = SLJIT_ARGS4(W, P_R, W_R, F64, W_R); break;
		case 5: args = SLJIT_ARGS4(W, F32, P, F32, F64); if (nfs < 4) nfs = 4; break;
		}
	} else {
		int conv = (int)plan_par(p, PA_CONV + fn, 0) % 3;
		if (conv == 0) { args = SLJIT_ARGS2V(P, W); if (nsav < 2) nsav = 2; }
		else if (conv == 1) { args = SLJIT_ARGS2V(P_R, W_R); opt = SLJIT_ENTER_REG_ARG; }
		else { args = SLJIT_ARGS2V(P_R, W_R); opt = SLJIT_ENTER_REG_ARG | SLJIT_ENTER_KEEP(1); }
		args |= rettype[fn_ret(em, fn)];
	}
	if (nscr > SLJIT_NUMBER_OF_REGISTERS - nsav) nscr = SLJIT_NUMBER_OF_REGISTERS - nsav;
	if (nfs > SLJIT_NUMBER_OF_FLOAT_REGISTERS - nfsav) nfsav = SLJIT_NUMBER_OF_FLOAT_REGISTERS - nfs;
#ifdef SLJIT_ENTER_USE_VEX
	if (plan_par(p, PA_OPTIONS, 0) & 1) opt |= SLJIT_ENTER_USE_VEX;
#endif
	em->nscr = nscr; em->nsav = nsav; em->nfs = nfs; em->nfsav = nfsav; em->nvs = nvs;
	em->ngp = 0; em->nfp = 0; em->nbusy = 0;
	for (i = 0; i < nscr; i++) em->gp[em->ngp++] = SLJIT_R(i);
	for (i = 1; i < nsav; i++) em->gp[em->ngp++] = SLJIT_S(i);
	for (i = 0; i < nfs && i < 16; i++) em->fp[em->nfp++] = SLJIT_FR(i);
	for (i = 0; i < nfsav && i < 16; i++) em->fp[em->nfp++] = SLJIT_FS(i);
	E(sljit_emit_enter(em->c, opt, args, nscr | SLJIT_ENTER_FLOAT(nfs) | (nvs ? SLJIT_ENTER_VECTOR(nvs) : 0), nsav | SLJIT_ENTER_FLOAT(nfsav), em->local));
	if (fn == 0) {
		if (sig == 4) {
			E(sljit_emit_op1(em->c, SLJIT_MOV_P, SLJIT_S0, 0, SLJIT_R0, 0));
			E(sljit_emit_op1(em->c, SLJIT_MOV, MS(OFF_ARG), SLJIT_R1, 0));
			E(sljit_emit_op1(em->c, SLJIT_MOV, MS(OFF_ARG + 8), SLJIT_R2, 0));
			E(sljit_emit_fop1(em->c, SLJIT_MOV_F64, MS(OFF_ARG + 16), SLJIT_FR0, 0));
		} else if (sig == 1) {
			for (i = 1; i < 4; i++) E(sljit_emit_op1(em->c, SLJIT_MOV, MS(OFF_ARG + i * 8), SLJIT_S(i), 0));
		} else if (sig == 2) {
			E(sljit_emit_op1(em->c, SLJIT_MOV, MS(OFF_ARG), SLJIT_S1, 0));
			E(sljit_emit_fop1(em->c, SLJIT_MOV_F64, MS(OFF_ARG + 8), SLJIT_FR0, 0));
			E(sljit_emit_fop1(em->c, SLJIT_MOV_F32, MS(OFF_ARG + 16), SLJIT_FR1, 0));
		} else if (sig == 3) {
			E(sljit_emit_op1(em->c, SLJIT_MOV32, MS(OFF_ARG), SLJIT_S1, 0));
			E(sljit_emit_op1(em->c, SLJIT_MOV32, MS(OFF_ARG + 8), SLJIT_S2, 0));
			E(sljit_emit_fop1(em->c, SLJIT_MOV_F64, MS(OFF_ARG + 16), SLJIT_FR0, 0));
		} else if (sig == 5) {
			E(sljit_emit_fop1(em->c, SLJIT_MOV_F32, MS(OFF_ARG), SLJIT_FR0, 0));
			E(sljit_emit_fop1(em->c, SLJIT_MOV_F32, MS(OFF_ARG + 8), SLJIT_FR1, 0));
			E(sljit_emit_fop1(em->c, SLJIT_MOV_F64, MS(OFF_ARG + 16), SLJIT_FR2, 0));
		}
	} else {
		int conv = (int)plan_par(p, PA_CONV + fn, 0) % 3;
		if (conv == 1) E(sljit_emit_op1(em->c, SLJIT_MOV_P, SLJIT_S0, 0, SLJIT_R0, 0));
		E(sljit_emit_op1(em->c, SLJIT_MOV, MS(OFF_SUBD), conv == 0 ? SLJIT_S1 : SLJIT_R1, 0));
	}
	for (i = 0; i < em->ngp; i++) E(sljit_emit_op1(em->c, SLJIT_MOV, em->gp[i], 0, SLJIT_IMM, imm_of(plan_par(p, PA_INIT, 1) * 131 + i * 8 + (i & 7))));
	for (i = 0; i < em->nfp; i++) fconst(em, i);
	for (i = 0; i < 6; i++) {
		E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), i * 8, SLJIT_IMM, i * 0x1111));
		if (!IS64) E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), i * 8 + 4, SLJIT_IMM, i * 0x1101));
	}
}
/* dump every register into the state so that a wrong value anywhere is seen */
static void fn_dump(Em *em)
{
	int i, area = em->fn ? OFF_SUBD + 8 : OFF_D, n = em->ngp, nf = em->nfp;
	if (em->fn && n > 12) n = 12;
	for (i = 0; i < n; i++) E(sljit_emit_op1(em->c, SLJIT_MOV, MS(area + i * 8), em->gp[i], 0));
	area = em->fn ? OFF_SUBD + 112 : OFF_DF;
	if (em->fn && nf > 16) nf = 16;
	for (i = 0; i < nf; i++) E(sljit_emit_fop1(em->c, (i & 1) ? SLJIT_MOV_F32 : SLJIT_MOV_F64, MS(area + i * 8), em->fp[i], 0));
}

static const struct { int op, set, type; } fltab[] = {
	{ SLJIT_ADD, SLJIT_SET_Z, SLJIT_ZERO }, { SLJIT_ADD, SLJIT_SET_Z, SLJIT_NOT_ZERO }, { SLJIT_ADD, SLJIT_SET_OVERFLOW, SLJIT_OVERFLOW }, { SLJIT_ADD, SLJIT_SET_OVERFLOW, SLJIT_NOT_OVERFLOW },
	{ SLJIT_ADD, SLJIT_SET_CARRY, SLJIT_CARRY }, { SLJIT_ADD, SLJIT_SET_CARRY, SLJIT_NOT_CARRY }, { SLJIT_ADD, SLJIT_SET_Z | SLJIT_SET_CARRY, SLJIT_CARRY }, { SLJIT_ADD, SLJIT_SET_Z | SLJIT_SET_OVERFLOW, SLJIT_ZERO },
	{ SLJIT_SUB, SLJIT_SET_Z, SLJIT_EQUAL }, { SLJIT_SUB, SLJIT_SET_LESS, SLJIT_LESS }, { SLJIT_SUB, SLJIT_SET_LESS, SLJIT_GREATER_EQUAL }, { SLJIT_SUB, SLJIT_SET_GREATER, SLJIT_GREATER }, { SLJIT_SUB, SLJIT_SET_GREATER, SLJIT_LESS_EQUAL },
	{ SLJIT_SUB, SLJIT_SET_SIG_LESS, SLJIT_SIG_LESS }, { SLJIT_SUB, SLJIT_SET_SIG_LESS, SLJIT_SIG_GREATER_EQUAL }, { SLJIT_SUB, SLJIT_SET_SIG_GREATER, SLJIT_SIG_GREATER }, { SLJIT_SUB, SLJIT_SET_SIG_GREATER, SLJIT_SIG_LESS_EQUAL },
	{ SLJIT_SUB, SLJIT_SET_OVERFLOW, SLJIT_OVERFLOW }, { SLJIT_SUB, SLJIT_SET_CARRY, SLJIT_CARRY }, { SLJIT_SUB, SLJIT_SET_Z | SLJIT_SET_LESS, SLJIT_LESS }, { SLJIT_SUB, SLJIT_SET_Z | SLJIT_SET_SIG_GREATER, SLJIT_NOT_EQUAL },
	{ SLJIT_SUB, SLJIT_SET_Z | SLJIT_SET_OVERFLOW, SLJIT_NOT_OVERFLOW },
	{ SLJIT_MUL, SLJIT_SET_OVERFLOW, SLJIT_OVERFLOW }, { SLJIT_MUL, SLJIT_SET_OVERFLOW, SLJIT_NOT_OVERFLOW },
	{ SLJIT_AND, SLJIT_SET_Z, SLJIT_ZERO }, { SLJIT_OR, SLJIT_SET_Z, SLJIT_NOT_ZERO }, { SLJIT_XOR, SLJIT_SET_Z, SLJIT_ZERO },
	{ SLJIT_MSHL, SLJIT_SET_Z, SLJIT_ZERO }, { SLJIT_MLSHR, SLJIT_SET_Z, SLJIT_ZERO }, { SLJIT_MASHR, SLJIT_SET_Z, SLJIT_NOT_ZERO },
};
#define NFL ((int)(sizeof fltab / sizeof *fltab))

typedef struct { unsigned char b[8]; int len; } NopEnc;
#if (defined SLJIT_LITTLE_ENDIAN && SLJIT_LITTLE_ENDIAN)
#define NB4(v) { { (v) & 255, (v) >> 8 & 255, (v) >> 16 & 255, (v) >> 24 }, 4 }
#else
#define NB4(v) { { (v) >> 24, (v) >> 16 & 255, (v) >> 8 & 255, (v) & 255 }, 4 }
#endif
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
#define NOP_ENCODINGS { { 0x90 }, 1 }, { { 0x66, 0x90 }, 2 }, { { 0x0f, 0x1f, 0x40, 0x00 }, 4 }, { { 0x0f, 0x1f, 0x80, 0, 0, 0, 0 }, 7 }
#elif (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2)
#define NOP_ENCODINGS { { 0x00, 0xbf }, 2 }
#elif (defined SLJIT_CONFIG_ARM_32 && SLJIT_CONFIG_ARM_32)
#define NOP_ENCODINGS NB4(0xe1a00000u)
#elif (defined SLJIT_CONFIG_ARM_64 && SLJIT_CONFIG_ARM_64)
#define NOP_ENCODINGS NB4(0xd503201fu)
#elif (defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV)
#define NOP_ENCODINGS NB4(0x00000013u)
#elif (defined SLJIT_CONFIG_PPC && SLJIT_CONFIG_PPC)
#define NOP_ENCODINGS NB4(0x60000000u)
#elif (defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X)
#define NOP_ENCODINGS { { 0x07, 0x00 }, 2 }, { { 0x47, 0x00, 0x00, 0x00 }, 4 }, { { 0xc0, 0x04, 0, 0, 0, 0 }, 6 }
#elif (defined SLJIT_CONFIG_LOONGARCH && SLJIT_CONFIG_LOONGARCH)
#define NOP_ENCODINGS NB4(0x03400000u)
#else
#define NOP_ENCODINGS NB4(0u)
#endif
static void emit_op(Em *em, const Line *l)
{
	const int64_t *a = l->a;
	uint64_t a0 = (uint64_t)a[0], a1 = (uint64_t)a[1], a2 = (uint64_t)a[2], a3 = (uint64_t)a[3], a4 = (uint64_t)a[4], a5 = (uint64_t)a[5];
	Opd d, s1, s2; int j, lab, r;
	if (em->err && em->nticks > 6000) return;
	em->nbusy = 0; em->nops++;
	if (l->op < 64) prog_kinds_used |= 1ull << l->op;
	switch (l->op) {
	case OK_MOVS: {
		static const int ops[] = { SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV_S8, SLJIT_MOV_U16, SLJIT_MOV_S16, SLJIT_MOV_U32, SLJIT_MOV_S32, SLJIT_MOV_P, SLJIT_MOV, SLJIT_MOV };
		static const int ops32[] = { SLJIT_MOV32, SLJIT_MOV32_U8, SLJIT_MOV32_S8, SLJIT_MOV32_U16, SLJIT_MOV32_S16 };
		int is32 = (a0 >> 8 & 3) == 3;
		int op = is32 ? ops32[a0 % 5] : ops[a0 % 10];
		d = dst_opd(em, a1, a[2]); s1 = src_opd(em, a3, a[4], 1);
		if (!ISREG(d) && !ISREG(s1) && s1.r != SLJIT_IMM && is_busy(em, 0)) break;
		if (is32 && op != SLJIT_MOV32) conv32(em, s1);
		E(sljit_emit_op1(em->c, op, d.r, d.w, s1.r, s1.w));
		if (is32) { back32(em, d, (int)(a5 & 1)); if (ISREG(s1) && s1.r != d.r && op != SLJIT_MOV32) back32(em, s1, (int)(a5 >> 1 & 1)); }
		break; }
	case OK_UN: {
		static const int ops[] = { SLJIT_CLZ, SLJIT_CTZ, SLJIT_REV, SLJIT_REV_U16, SLJIT_REV_S16, SLJIT_REV_U32, SLJIT_REV_S32 };
		int k = (int)(a0 % 7), is32 = (a0 >> 8 & 1) && k < 5;
		int op = ops[k];
		if (!IS64 && k >= 5) op = SLJIT_REV;
		if (is32) op |= SLJIT_32;
		d = dst_opd(em, a1, a[2]); s1 = src_opd(em, a3, a[4], 0);
		if (is32) conv32(em, s1);
		E(sljit_emit_op1(em->c, op, d.r, d.w, s1.r, s1.w));
		if (is32) { back32(em, d, (int)(a5 & 1)); if (ISREG(s1) && s1.r != d.r) back32(em, s1, 0); }
		break; }
	case OK_OP2: {
		static const int ops[] = { SLJIT_ADD, SLJIT_SUB, SLJIT_MUL, SLJIT_AND, SLJIT_OR, SLJIT_XOR, SLJIT_SHL, SLJIT_LSHR, SLJIT_ASHR, SLJIT_MSHL, SLJIT_MLSHR, SLJIT_MASHR, SLJIT_ROTL, SLJIT_ROTR };
		int k = (int)(a0 % 14), op = ops[k], is32 = (int)(a0 >> 8 & 1);
		if (is32) op |= SLJIT_32;
		d = dst_opd(em, a1, a[2]); s1 = src_opd(em, a3, a[4], 1); if (is32) keep_opd(em, s1); s2 = src_opd(em, a5, a[6], 1);
		if (k >= 6 && k <= 8) { s2.r = SLJIT_IMM; s2.w = (sljit_sw)(a5 % (is32 ? 32 : 8 * (unsigned)WB)); }
		if (is32) { conv32(em, s1); if (ISREG(s2) && s2.r != s1.r) conv32(em, s2); }
		E(sljit_emit_op2(em->c, op, d.r, d.w, s1.r, s1.w, s2.r, s2.w));
		if (is32) { back32(em, d, (int)(a0 >> 9 & 1)); if (ISREG(s1) && s1.r != d.r) back32(em, s1, 0); if (ISREG(s2) && s2.r != d.r && s2.r != s1.r) back32(em, s2, 1); }
		break; }
	case OK_OP2F: {
		int k = (int)(a0 % NFL), op = fltab[k].op | fltab[k].set, is32 = (int)(a0 >> 8 & 1), u = (a0 >> 9 & 3) == 0;
		if (is32) op |= SLJIT_32;
		d = dst_opd(em, a1, a[2]); s1 = src_opd(em, a3, a[4], 1); if (is32) keep_opd(em, s1); s2 = src_opd(em, a5, a[6], 1);
		if (is32) { conv32(em, s1); if (ISREG(s2) && s2.r != s1.r) conv32(em, s2); }
		if (u) E(sljit_emit_op2u(em->c, op, s1.r, s1.w, s2.r, s2.w));
		else E(sljit_emit_op2(em->c, op, d.r, d.w, s1.r, s1.w, s2.r, s2.w));
		/* moves keep the flags, so the 64 bit forms can be restored before the flags are used */
		if (is32) { if (!u) back32(em, d, 0); if (ISREG(s1) && (u || s1.r != d.r)) back32(em, s1, 0); if (ISREG(s2) && (u || s2.r != d.r) && s2.r != s1.r) back32(em, s2, 1); }
		em->nbusy = 0;
		consume(em, fltab[k].type, is32, (uint64_t)a[7], 0);
		break; }
	case OK_ADDC: {
		int sub = (int)(a0 & 1), is32 = (int)(a0 >> 1 & 1) ? SLJIT_32 : 0, r2, r3, ch = (int)(a0 >> 2 & 1);
		r = rsel(em, a[1]); mk_busy(em, r); r2 = rsel(em, a[2]); mk_busy(em, r2); r3 = rsel(em, a[3]);
		if (is32) { Opd o = { r, 0 }, o2 = { r2, 0 }, o3 = { r3, 0 }; conv32(em, o); conv32(em, o2); conv32(em, o3); }
		E(sljit_emit_op2(em->c, (sub ? SLJIT_SUB : SLJIT_ADD) | is32 | SLJIT_SET_CARRY, r, 0, r, 0, r2, 0));
		E(sljit_emit_op2(em->c, (sub ? SLJIT_SUBC : SLJIT_ADDC) | is32 | (ch ? SLJIT_SET_CARRY : 0), r3, 0, r3, 0, (a0 >> 4 & 1) ? SLJIT_IMM : r2, (a0 >> 4 & 1) ? (sljit_sw)(a[4] & 0xff) : 0));
		if (ch) E(sljit_emit_op2(em->c, (sub ? SLJIT_SUBC : SLJIT_ADDC) | is32, r2, 0, r2, 0, r, 0));
		if (is32) { Opd o = { r, 0 }, o2 = { r2, 0 }, o3 = { r3, 0 }; back32(em, o, 0); back32(em, o2, 1); back32(em, o3, 0); }
		break; }
	case OK_MULADD:
		r = rsel(em, a[1]);
		s1 = src_opd(em, a3, a[4], 1); s2 = src_opd(em, a5, a[6], 1);
		if (is_busy(em, r)) break;
		E(sljit_emit_op2r(em->c, SLJIT_MULADD, r, s1.r, s1.w, s2.r, s2.w));
		break;
	case OK_SHINTO: {
		static const int ops[] = { SLJIT_SHL, SLJIT_LSHR, SLJIT_MSHL, SLJIT_MLSHR };
		int k = (int)(a0 % 4), r1, r2, is32 = (int)(a0 >> 8 & 1), op = ops[k] | (is32 ? SLJIT_32 : 0);
		r = rsel(em, a[1]); mk_busy(em, r); r2 = rsel(em, a[2]); r1 = (a0 >> 9 & 1) ? r : rsel(em, a[3]); mk_busy(em, r2); mk_busy(em, r1);
		if (k < 2 || (a0 >> 10 & 1)) { s1.r = SLJIT_IMM; s1.w = (sljit_sw)(a[4] & (is32 ? 31 : 8 * WB - 1)); }
		else { s1.r = rsel(em, a[5]); s1.w = 0; }
		if (is32) { Opd o1 = { r1, 0 }, o2 = { r2, 0 }; conv32(em, o1); conv32(em, o2); conv32(em, s1); }
		E(sljit_emit_shift_into(em->c, op, r, r1, r2, s1.r, s1.w));
		if (is32) { Opd o = { r, 0 }, o1 = { r1, 0 }, o2 = { r2, 0 }; back32(em, o, 1); if (r1 != r) back32(em, o1, 0); if (r2 != r) back32(em, o2, 0); if (ISREG(s1)) back32(em, s1, 0); }
		break; }
	case OK_OP0: {
		switch (a0 % 6) {
		case 0: E(sljit_emit_op0(em->c, SLJIT_NOP)); break;
		case 1: E(sljit_emit_op0(em->c, SLJIT_LMUL_UW)); break;
		case 2: E(sljit_emit_op0(em->c, SLJIT_LMUL_SW)); break;
		case 3: case 4: {
			static const int ops[] = { SLJIT_DIVMOD_UW, SLJIT_DIVMOD_SW, SLJIT_DIV_UW, SLJIT_DIV_SW, SLJIT_DIVMOD_U32, SLJIT_DIVMOD_S32, SLJIT_DIV_U32, SLJIT_DIV_S32 };
			int op = ops[a1 % 8]; Opd o0 = { SLJIT_R0, 0 }, o1 = { SLJIT_R1, 0 };
			E(sljit_emit_op2(em->c, SLJIT_AND, SLJIT_R1, 0, SLJIT_R1, 0, SLJIT_IMM, 0xfff));
			E(sljit_emit_op2(em->c, SLJIT_OR, SLJIT_R1, 0, SLJIT_R1, 0, SLJIT_IMM, 1));
			if (op & SLJIT_32) { conv32(em, o0); conv32(em, o1); }
			E(sljit_emit_op0(em->c, op));
			if (op & SLJIT_32) { back32(em, o0, 1); back32(em, o1, 1); }
			break; }
		default: if (sljit_has_cpu_feature(SLJIT_HAS_MEMORY_BARRIER)) E(sljit_emit_op0(em->c, SLJIT_MEMORY_BARRIER));
			else { sljit_uw sz = em->c->size; int e; unsup(em, 3); e = sljit_emit_op0(em->c, SLJIT_MEMORY_BARRIER); refused(em, e, sz); }
			break;
		}
		break; }
	case OK_FOP1: {
		int f32 = (int)(a0 & 1), f = fsel(em, a[1], f32), g = fsel(em, a[2], f32), op = (a0 >> 1 & 3) == 0 ? SLJIT_NEG_F64 : (a0 >> 1 & 3) == 1 ? SLJIT_ABS_F64 : SLJIT_MOV_F64;
		if (f < 0) break;
		d.r = f; d.w = 0; s1.r = g; s1.w = 0;
		if (a0 >> 4 & 1) s1 = mem_opd(em, a3, f32 ? OFF_F32 : OFF_F64, 60, 8);
		if ((a0 >> 4 & 1) ? (a0 >> 6 & 3) == 0 : (a0 >> 5 & 1)) d = mem_opd(em, a3, f32 ? OFF_F32 : OFF_F64, 60, 8);
		E(sljit_emit_fop1(em->c, op | (f32 ? SLJIT_32 : 0), d.r, d.w, s1.r, s1.w));
		break; }
	case OK_FOP2: {
		static const int ops[] = { SLJIT_ADD_F64, SLJIT_SUB_F64, SLJIT_MUL_F64, SLJIT_DIV_F64 };
		int f32 = (int)(a0 & 1), f = fsel(em, a[1], f32), g = fsel(em, a[2], f32), h = fsel(em, a[3], f32);
		if (f < 0) break;
		d.r = f; d.w = 0; s1.r = g; s1.w = 0; s2.r = h; s2.w = 0;
		if (a0 >> 8 & 1) s1 = mem_opd(em, a4, f32 ? OFF_F32 : OFF_F64, 60, 8);
		if (a0 >> 9 & 1) s2 = mem_opd(em, a5, f32 ? OFF_F32 : OFF_F64, 60, 8);
		if ((a0 >> 10 & 3) == 3) d = mem_opd(em, (uint64_t)a[6], f32 ? OFF_F32 : OFF_F64, 60, 8);
		if ((a0 >> 12 & 3) == 3) E(sljit_emit_fop2r(em->c, SLJIT_COPYSIGN_F64 | (f32 ? SLJIT_32 : 0), f, s1.r, s1.w, s2.r, s2.w));
		else E(sljit_emit_fop2(em->c, ops[a0 >> 4 & 3] | (f32 ? SLJIT_32 : 0), d.r, d.w, s1.r, s1.w, s2.r, s2.w));
		break; }
	case OK_FSET: {
		int f32 = (int)(a0 & 1), f = fsel(em, a[1], f32); sljit_f64 v; sljit_f32 v32;
		static const double t[] = { 0.0, 1.0, -1.0, 0.5, 2.0, 3.14159, 1e10, -1e-5, 123456.0, -0.0, 31.0, 0.125 };
		if (f < 0) break;
		v = t[a2 % 12]; v32 = (sljit_f32)t[a2 % 12];
		if (f32) E(sljit_emit_fset32(em->c, f, v32)); else E(sljit_emit_fset64(em->c, f, v));
		break; }
	case OK_FCOPY: {
		int f64 = fsel(em, a[1], 0), f32 = fsel(em, a[1], 1);
		r = rsel(em, a[2]);
		if (a0 & 1) {
			if (f32 < 0) break;
			if (a0 & 2) { Opd o = { r, 0 }; conv32(em, o); E(sljit_emit_fcopy(em->c, SLJIT_COPY32_TO_F32, f32, r)); back32(em, o, 0); }
			else { Opd o = { r, 0 }; E(sljit_emit_fcopy(em->c, SLJIT_COPY32_FROM_F32, f32, r)); back32(em, o, 1); }
		} else {
			int rr = r, r2;
			if (f64 < 0) break;
			if (!IS64 && (a0 & 4)) { mk_busy(em, r); r2 = rsel(em, a[3]); rr = SLJIT_REG_PAIR(r, r2); }
			E(sljit_emit_fcopy(em->c, (a0 & 2) ? SLJIT_COPY_TO_F64 : SLJIT_COPY_FROM_F64, f64, rr));
		}
		break; }
	case OK_CONV: {
		int f64 = fsel(em, a[1], 0), f32 = fsel(em, a[2], 1);
		if (f64 < 0 || f32 < 0) break;
		r = rsel(em, a[3]);
		switch (a0 % 8) {
		case 0: E(sljit_emit_fop1(em->c, SLJIT_CONV_F64_FROM_F32, f64, 0, f32, 0)); break;
		case 1: E(sljit_emit_fop1(em->c, SLJIT_CONV_F32_FROM_F64, f32, 0, f64, 0)); break;
		case 2: E(sljit_emit_fop1(em->c, SLJIT_CONV_F64_FROM_SW, f64, 0, r, 0)); break;
		case 3: E(sljit_emit_fop1(em->c, SLJIT_CONV_F32_FROM_UW, f32, 0, r, 0)); break;
		case 4: E(sljit_emit_fop1(em->c, SLJIT_CONV_F64_FROM_U32, f64, 0, MS(OFF_W + (sljit_sw)(a4 % 60) * 8))); break;
		case 5: E(sljit_emit_fop1(em->c, SLJIT_CONV_F32_FROM_S32, f32, 0, SLJIT_IMM, (sljit_sw)(int32_t)a[4])); break;
		case 6: /* keep the value in range, the result is undefined otherwise */
			E(sljit_emit_op2(em->c, SLJIT_AND, r, 0, r, 0, SLJIT_IMM, 0x7fffff));
			E(sljit_emit_fop1(em->c, SLJIT_CONV_F64_FROM_SW, f64, 0, r, 0));
			E(sljit_emit_fop1(em->c, SLJIT_CONV_SW_FROM_F64, r, 0, f64, 0));
			break;
		default:
			E(sljit_emit_fset32(em->c, f32, 77.75f));
			E(sljit_emit_fop1(em->c, SLJIT_CONV_S32_FROM_F32, MS(OFF_W + (sljit_sw)(a4 % 60) * 8), f32, 0));
			break;
		}
		break; }
	case OK_FCMP: {
		static const int ty[] = { SLJIT_F_EQUAL, SLJIT_F_NOT_EQUAL, SLJIT_F_LESS, SLJIT_F_GREATER_EQUAL, SLJIT_F_GREATER, SLJIT_F_LESS_EQUAL, SLJIT_UNORDERED, SLJIT_ORDERED, SLJIT_ORDERED_EQUAL,
			SLJIT_UNORDERED_OR_NOT_EQUAL, SLJIT_ORDERED_LESS, SLJIT_UNORDERED_OR_GREATER_EQUAL, SLJIT_ORDERED_GREATER, SLJIT_UNORDERED_OR_LESS_EQUAL, SLJIT_UNORDERED_OR_EQUAL, SLJIT_ORDERED_NOT_EQUAL, SLJIT_UNORDERED_OR_LESS, SLJIT_ORDERED_GREATER_EQUAL };
		static const int st[] = { SLJIT_SET_F_EQUAL, SLJIT_SET_F_NOT_EQUAL, SLJIT_SET_F_LESS, SLJIT_SET_F_GREATER_EQUAL, SLJIT_SET_F_GREATER, SLJIT_SET_F_LESS_EQUAL, SLJIT_SET_UNORDERED, SLJIT_SET_ORDERED, SLJIT_SET_ORDERED_EQUAL,
			SLJIT_SET_UNORDERED_OR_NOT_EQUAL, SLJIT_SET_ORDERED_LESS, SLJIT_SET_UNORDERED_OR_GREATER_EQUAL, SLJIT_SET_ORDERED_GREATER, SLJIT_SET_UNORDERED_OR_LESS_EQUAL, SLJIT_SET_UNORDERED_OR_EQUAL, SLJIT_SET_ORDERED_NOT_EQUAL, SLJIT_SET_UNORDERED_OR_LESS, SLJIT_SET_ORDERED_GREATER_EQUAL };
		int f32 = (int)(a0 & 1), f = fsel(em, a[1], f32), g = fsel(em, a[2], f32), k = (int)(a0 >> 4) % 18;
		if (k < 0) k = 0;
		if (f < 0) break;
		if (k < 6) k += 8; /* basic types are unspecified for NaNs: use the ordered / unordered forms */
		if (a0 >> 1 & 1) {
			J(j, sljit_emit_fcmp(em->c, ty[k] | (f32 ? SLJIT_32 : 0), f, 0, g, 0));
			E(sljit_emit_op2(em->c, SLJIT_ADD, rsel(em, a[3]), 0, rsel(em, a[3]), 0, SLJIT_IMM, 9));
			set_lab(em, j, new_label(em));
		} else {
			E(sljit_emit_fop1(em->c, SLJIT_CMP_F64 | (f32 ? SLJIT_32 : 0) | st[k], f, 0, g, 0));
			consume(em, ty[k], 0, (uint64_t)a[4], 0);
		}
		break; }
	case OK_FSEL: {
		int f = fsel(em, a[1], 1), g = fsel(em, a[2], 1), h = fsel(em, a[3], 1);
		if (f < 0) break;
		E(sljit_emit_op2u(em->c, SLJIT_SUB | SLJIT_SET_LESS, rsel(em, a[4]), 0, SLJIT_IMM, imm_of(a[5])));
		if (a0 & 1) E(sljit_emit_fselect(em->c, SLJIT_LESS | SLJIT_32, f, MS(OFF_F32 + (sljit_sw)(a2 % 60) * 8), h));
		else E(sljit_emit_fselect(em->c, SLJIT_GREATER_EQUAL | SLJIT_32, f, g, 0, h));
		break; }
	case OK_CMP: { /* forward conditional jump */
		int t = (int)(a0 % 10), is32 = (a0 >> 8 & 3) == 0;
		s1 = src_opd(em, a1, a[2], 1); if (is32) keep_opd(em, s1); s2 = src_opd(em, a3, a[4], 1);
		if (is32) { conv32(em, s1); if (ISREG(s2) && s2.r != s1.r) conv32(em, s2); }
		J(j, sljit_emit_cmp(em->c, t | (is32 ? SLJIT_32 : 0) | ((a0 >> 12 & 7) == 0 ? SLJIT_REWRITABLE_JUMP : 0), s1.r, s1.w, s2.r, s2.w));
		if (is32 && IS64) { /* both paths must restore the registers */
			int l1, j2;
			if (ISREG(s1)) back32(em, s1, 0);
			if (ISREG(s2) && s2.r != s1.r) back32(em, s2, 0);
			J(j2, sljit_emit_jump(em->c, SLJIT_JUMP));
			l1 = new_label(em); set_lab(em, j, l1);
			if (ISREG(s1)) back32(em, s1, 0);
			if (ISREG(s2) && s2.r != s1.r) back32(em, s2, 0);
			J(j, sljit_emit_jump(em->c, SLJIT_JUMP));
			pend_jump(em, j, a[5]);
			set_lab(em, j2, new_label(em));
		} else pend_jump(em, j, a[5]);
		break; }
	case OK_OP2CMPZ: {
		static const int ops[] = { SLJIT_ADD, SLJIT_SUB, SLJIT_AND, SLJIT_OR, SLJIT_XOR };
		d = dst_opd(em, a1, a[2]); s1 = src_opd(em, a3, a[4], 1); s2 = src_opd(em, a5, a[6], 1);
		J(j, sljit_emit_op2cmpz(em->c, ops[a0 % 5] | ((a0 >> 8 & 1) ? SLJIT_JUMP_IF_ZERO : SLJIT_JUMP_IF_NON_ZERO) | ((a0 >> 9 & 3) == 0 ? SLJIT_REWRITABLE_JUMP : 0), d.r, d.w, s1.r, s1.w, s2.r, s2.w));
		pend_jump(em, j, a[7]);
		break; }
	case OK_LAB: {
		bind_pending(em, (int)(a0 % 8));
		if (a1 & 1) new_label(em);
		if (a1 & 2) { int al = (int)((a1 >> 3) % 5); struct sljit_label *lp; tick(em); lp = sljit_emit_aligned_label(em->c, al, NULL); ret_check(em, 0, !lp, 1); }
		if (a1 & 4) { tick(em); sljit_set_current_flags(em->c, 0); }
		break; }
	case OK_LNOP: new_label(em); tick(em); sljit_set_current_flags(em->c, SLJIT_CURRENT_FLAGS_SUB | SLJIT_SET_Z); break;
	case OK_LB:
		if (em->nloop >= 2) break;
		bind_pending(em, -1);
		E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 48 + em->nloop * 8, SLJIT_IMM, 1 + (sljit_sw)(a0 % 3)));
		em->loopl[em->nloop++] = new_label(em);
		break;
	case OK_LE:
		if (em->nloop == 0) break;
		bind_pending(em, -1);
		em->nloop--;
		E(sljit_emit_op2(em->c, SLJIT_SUB | SLJIT_SET_Z, SLJIT_MEM1(SLJIT_SP), 48 + em->nloop * 8, SLJIT_MEM1(SLJIT_SP), 48 + em->nloop * 8, SLJIT_IMM, 1));
		J(j, sljit_emit_jump(em->c, SLJIT_NOT_ZERO));
		set_lab(em, j, em->loopl[em->nloop]);
		break;
	case OK_CALL: case OK_ICALL: {
		int k = (int)(a0 % 6), ind = l->op == OK_ICALL; sljit_s32 at; sljit_sw fa;
		if (em->no_call) break;
		em->ncall++;
		E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_R0, 0, rsel(em, a[1]), 0));
		E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, imm_of(a[2])));
		E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_R2, 0, rsel(em, a[3]), 0));
		E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_R3, 0, SLJIT_IMM, (sljit_sw)(a2 & 0x7fff)));
		if (em->nfs) { E(sljit_emit_fset64(em->c, SLJIT_FR0, 1.25)); E(sljit_emit_fset32(em->c, SLJIT_FR1, 2.5f)); }
		if ((k == 4 && em->nfs < 4) || (!em->nfs && (k & 1))) k = 5;
		switch (k) {
		case 0: at = SLJIT_ARGS2(W, W, W); fa = SLJIT_FUNC_ADDR(cb_ww); break;
		case 1: at = SLJIT_ARGS3(F64, F64, W, F32); fa = SLJIT_FUNC_ADDR(cb_f); break;
		case 2: at = SLJIT_ARGS4(32, 32, W, 32, W); fa = SLJIT_FUNC_ADDR(cb_32); { Opd o0 = { SLJIT_R0, 0 }, o2 = { SLJIT_R2, 0 }; conv32(em, o0); conv32(em, o2); } break;
		case 3: at = SLJIT_ARGS4V(W, F64, W, F32); fa = SLJIT_FUNC_ADDR(cb_v); break;
		case 4: at = SLJIT_ARGS4(F32, F32, F32, F64, F64); fa = SLJIT_FUNC_ADDR(cb_f4);
			E(sljit_emit_fset32(em->c, SLJIT_FR0, 1.5f)); E(sljit_emit_fset32(em->c, SLJIT_FR1, -2.5f)); E(sljit_emit_fset64(em->c, SLJIT_FR2, 3.5)); E(sljit_emit_fset64(em->c, SLJIT_FR3, -4.5)); break;
		default: at = SLJIT_ARGS0(W); fa = SLJIT_FUNC_ADDR(cb_0); break;
		}
		if (ind) {
			if (a4 & 1) E(sljit_emit_icall(em->c, SLJIT_CALL, at, SLJIT_IMM, fa));
			else if ((a4 & 2) && em->nsav >= 2) {
				E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_S(1), 0, SLJIT_IMM, fa));
				E(sljit_emit_icall(em->c, SLJIT_CALL, at, SLJIT_S(1), 0));
				E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_S(1), 0, SLJIT_IMM, 17));
			} else {
				E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 72, SLJIT_IMM, fa));
				E(sljit_emit_icall(em->c, SLJIT_CALL, at, SLJIT_MEM1(SLJIT_SP), 72));
			}
		} else {
			J(j, sljit_emit_call(em->c, SLJIT_CALL | ((a4 & 3) == 0 ? SLJIT_REWRITABLE_JUMP : 0), at));
			set_tgt(em, j, (sljit_uw)fa);
		}
		if (k == 1) { E(sljit_emit_fop1(em->c, SLJIT_MOV_F64, MS(OFF_F64), SLJIT_FR0, 0)); }
		if (k == 4) { E(sljit_emit_fop1(em->c, SLJIT_MOV_F32, MS(OFF_F32), SLJIT_FR0, 0)); }
		if (k == 2) { Opd o0 = { SLJIT_R0, 0 }; back32(em, o0, 1); }
		refresh_scratch(em, (k == 0 || k == 2 || k == 5) ? SLJIT_R0 : 0);
		break; }
	case OK_LOCAL: {
		sljit_sw off = (sljit_sw)(a1 % 6) * 8;
		r = psel(em, a[2]);
		if (r < 0) break;
		E(sljit_get_local_base(em->c, r, 0, off - (sljit_sw)(a3 % 3) * 0x120));
		E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_MEM1(r), (sljit_sw)(a3 % 3) * 0x120, SLJIT_IMM, imm_of(a[4])));
		E(sljit_emit_op1(em->c, SLJIT_MOV, r, 0, SLJIT_MEM1(SLJIT_SP), off));
		if (em->local > 4096 && (a0 & 1)) {
			sljit_sw o2 = (em->local - 16) & ~7;
			E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), o2, SLJIT_IMM, 0x77));
			E(sljit_emit_op2(em->c, SLJIT_ADD, r, 0, r, 0, SLJIT_MEM1(SLJIT_SP), o2));
		}
		break; }
	case OK_CONST: {
		static const int ops[] = { SLJIT_MOV, SLJIT_MOV32, SLJIT_MOV_S32, SLJIT_MOV_U8, SLJIT_MOV32_U8, SLJIT_MOV };
		int op = ops[a0 % 6], slot = alloc_slot(em), mem = (a1 & 3) == 0, n = 0; struct sljit_const *c, *k; sljit_sw v = imm_of(a[2]);
		ConstSite *cs;
		if (slot < 0) break;
		if (em->nloop) break;
		r = rsel(em, a[3]);
		if (op == SLJIT_MOV_U8 || op == SLJIT_MOV32_U8) v = mem ? (v & 0xff) : (sljit_sw)((v & 0x1ff) - 256);
		else if (op != SLJIT_MOV) v = (sljit_s32)v;
		tick(em);
		if (mem) c = sljit_emit_const(em->c, op, MS(OFF_CS + slot * 8), v);
		else c = sljit_emit_const(em->c, op, r, 0, v);
		ret_check(em, 0, !c, 1);
		STAT(ST_OPS);
		if (c) {
			for (k = sljit_get_first_const(em->c); k && k != c; k = sljit_get_next_const(k)) n++;
			if (!k) sim_viol("const-list", "a created constant is not enumerated");
		}
		if (!mem) {
			if (op == SLJIT_MOV32 || op == SLJIT_MOV32_U8) { Opd o = { r, 0 }; back32(em, o, 1); }
			E(sljit_emit_op1(em->c, SLJIT_MOV, MS(OFF_CS + slot * 8), r, 0));
			E(sljit_emit_op1(em->c, SLJIT_MOV, r, 0, SLJIT_IMM, 3));
		}
		cs = em->cs + em->ncs++;
		cs->idx = n; cs->op = op; cs->slot = slot; cs->mem = mem; cs->init = v;
		break; }
	case OK_RJUMP: case OK_RCOND: case OK_RFAST: {
		/* a rewritable jump to one of three places, each leaving its tag */
		int slot = alloc_slot(em), i, je[3], je2; JumpSite *s;
		if (slot < 0 || em->nloop) break;
		s = em->rj + em->nrj;
		if (l->op == OK_RFAST) {
			/* fast call: the callees are behind a jump */
			int jover, jc;
			J(jover, sljit_emit_jump(em->c, SLJIT_JUMP));
			for (i = 0; i < 3; i++) {
				s->lab[i] = new_label(em);
				E(sljit_emit_op_dst(em->c, SLJIT_FAST_ENTER, SLJIT_MEM1(SLJIT_SP), 64));
				store_slot_tag(em, slot, 0x7a60 + i);
				E(sljit_emit_op_src(em->c, SLJIT_FAST_RETURN, SLJIT_MEM1(SLJIT_SP), 64));
			}
			set_lab(em, jover, new_label(em));
			J(jc, sljit_emit_jump(em->c, SLJIT_FAST_CALL | SLJIT_REWRITABLE_JUMP));
			set_lab(em, jc, s->lab[0]);
			s->idx = jc;
		} else {
			store_slot_tag(em, slot, 0x1111);
			if (l->op == OK_RCOND) {
				int is32 = 0; (void)is32;
				switch (a0 % 4) {
				case 0: J(s->idx, sljit_emit_cmp(em->c, SLJIT_EQUAL | SLJIT_REWRITABLE_JUMP, SLJIT_S0, 0, SLJIT_IMM, ST)); break;
				case 1: E(sljit_emit_op2u(em->c, SLJIT_SUB | SLJIT_SET_GREATER_EQUAL, SLJIT_S0, 0, SLJIT_IMM, 1));
					J(s->idx, sljit_emit_jump(em->c, SLJIT_GREATER_EQUAL | SLJIT_REWRITABLE_JUMP)); break;
				case 2: J(s->idx, sljit_emit_op2cmpz(em->c, SLJIT_OR | SLJIT_REWRITABLE_JUMP, rsel(em, a[1]), 0, SLJIT_S0, 0, SLJIT_IMM, 1)); break;
				default: { int f = fsel(em, a[1], 0); if (f < 0) { J(s->idx, sljit_emit_jump(em->c, SLJIT_JUMP | SLJIT_REWRITABLE_JUMP)); break; }
					E(sljit_emit_fset64(em->c, f, 4.0));
					J(s->idx, sljit_emit_fcmp(em->c, SLJIT_ORDERED_EQUAL | SLJIT_REWRITABLE_JUMP, f, 0, f, 0)); break; }
				}
				store_slot_tag(em, slot, 0x2222);
			} else J(s->idx, sljit_emit_jump(em->c, SLJIT_JUMP | SLJIT_REWRITABLE_JUMP));
			je2 = -1;
			if (l->op == OK_RCOND) J(je2, sljit_emit_jump(em->c, SLJIT_JUMP));
			for (i = 0; i < 3; i++) {
				s->lab[i] = new_label(em);
				if (i == 0) set_lab(em, s->idx, s->lab[0]);
				store_slot_tag(em, slot, 0x7a60 + i);
				J(je[i], sljit_emit_jump(em->c, SLJIT_JUMP));
			}
			lab = new_label(em);
			for (i = 0; i < 3; i++) set_lab(em, je[i], lab);
			if (l->op == OK_RCOND) set_lab(em, je2, lab);
			if (l->op == OK_RCOND && a0 % 4 == 2) E(sljit_emit_op1(em->c, SLJIT_MOV, rsel(em, a[1]), 0, SLJIT_IMM, 8));
		}
		s->nl = 3; s->slot = slot; s->kind = 0; em->nrj++;
		break; }
	case OK_RCALL: {
		int slot = alloc_slot(em); JumpSite *s;
		if (slot < 0 || em->nloop || em->no_call) break;
		s = em->rj + em->nrj;
		E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_S0, 0));
		E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, slot));
		J(s->idx, sljit_emit_call(em->c, SLJIT_CALL | SLJIT_REWRITABLE_JUMP, SLJIT_ARGS2V(P, W)));
		set_tgt(em, s->idx, sim_tagfn_addr[0] ? sim_tagfn_addr[0] : (sljit_uw)sim_tagfns[0]);
		refresh_scratch(em, 0);
		s->nl = 4; s->slot = slot; s->kind = 1; em->nrj++;
		break; }
	case OK_FARC: { /* a direct call to one of the (maybe far) functions */
		int slot = alloc_slot(em), k = (int)(a0 & 3), jc;
		if (slot < 0 || em->nloop || em->no_call) break;
		E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_S0, 0));
		E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, slot));
		J(jc, sljit_emit_call(em->c, SLJIT_CALL | ((a0 & 8) ? SLJIT_REWRITABLE_JUMP : 0), SLJIT_ARGS2V(P, W)));
		set_tgt(em, jc, sim_tagfn_addr[k] ? sim_tagfn_addr[k] : (sljit_uw)sim_tagfns[k]);
		refresh_scratch(em, 0);
		break; }
	case OK_FARJ: { /* a jump to a fixed (maybe far) address outside of the code, where a stub jumps back to a label */
		int k = (int)(a0 & 3), rw = (a0 & 32) ? SLJIT_REWRITABLE_JUMP : 0, ja, jf, l1; sljit_sw wo = OFF_W + (sljit_sw)(a3 % 60) * 8;
		r = rsel(em, a[1]);
		J(ja, sljit_emit_op_addr(em->c, SLJIT_MOV_ADDR, r, 0));
		E(sljit_emit_op1(em->c, SLJIT_MOV, MS(OFF_FAR), r, 0));
		switch (a0 >> 2 & 7) {
		case 0: J(jf, sljit_emit_jump(em->c, SLJIT_JUMP | rw)); break;
		case 1: J(jf, sljit_emit_cmp(em->c, SLJIT_NOT_EQUAL | rw, SLJIT_S0, 0, SLJIT_IMM, 0)); break;
		case 2: J(jf, sljit_emit_cmp(em->c, SLJIT_EQUAL | rw, SLJIT_S0, 0, MS(wo))); break;
		case 3: J(jf, sljit_emit_cmp(em->c, SLJIT_SIG_LESS | rw, MS(wo), SLJIT_IMM, imm_of(a[4]))); break;
		case 4: case 5: E(sljit_emit_op2u(em->c, SLJIT_SUB | SLJIT_SET_Z, MS(wo), SLJIT_IMM, imm_of(a[4])));
			if (a0 & 64) E(sljit_emit_op1(em->c, SLJIT_MOV, MS(OFF_W + 24), SLJIT_IMM, (sljit_sw)(a0 & 0xff)));
			J(jf, sljit_emit_jump(em->c, ((a0 & 128) ? SLJIT_ZERO : SLJIT_NOT_ZERO) | rw)); break;
		case 6: E(sljit_emit_op2u(em->c, SLJIT_SUB | SLJIT_SET_LESS, MS(wo), SLJIT_IMM, imm_of(a[4])));
			J(jf, sljit_emit_jump(em->c, ((a0 & 128) ? SLJIT_LESS : SLJIT_GREATER_EQUAL) | rw)); break;
		default: E(sljit_emit_op2(em->c, SLJIT_ADD | SLJIT_SET_OVERFLOW, MS(OFF_W + 32), MS(wo), SLJIT_IMM, imm_of(a[4])));
			J(jf, sljit_emit_jump(em->c, ((a0 & 128) ? SLJIT_OVERFLOW : SLJIT_NOT_OVERFLOW) | rw)); break;
		}
		if (sim_farjmp_addr[k]) set_tgt(em, jf, sim_farjmp_addr[k]);
		E(sljit_emit_op2(em->c, SLJIT_ADD, MS(OFF_W + 8), MS(OFF_W + 8), SLJIT_IMM, 77));
		l1 = new_label(em);
		set_lab(em, ja, l1);
		if (!sim_farjmp_addr[k]) set_lab(em, jf, l1);
		E(sljit_emit_op1(em->c, SLJIT_MOV, MS(OFF_FAR), SLJIT_IMM, 0));
		E(sljit_emit_op1(em->c, SLJIT_MOV, r, 0, SLJIT_IMM, 29));
		break; }
	case OK_OPADDR: { /* indirect jump through a label address */
		int jm, l1;
		r = rsel(em, a[1]);
		J(jm, sljit_emit_op_addr(em->c, SLJIT_MOV_ADDR, r, 0));
		if (a0 & 1) { /* conditional skip in between */
			E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 72, r, 0));
			E(sljit_emit_ijump(em->c, SLJIT_JUMP, SLJIT_MEM1(SLJIT_SP), 72));
		} else E(sljit_emit_ijump(em->c, SLJIT_JUMP, r, 0));
		E(sljit_emit_op2(em->c, SLJIT_ADD, MS(OFF_W + 8), MS(OFF_W + 8), SLJIT_IMM, 111)); /* never executed */
		l1 = new_label(em);
		set_lab(em, jm, l1);
		E(sljit_emit_op1(em->c, SLJIT_MOV, r, 0, SLJIT_IMM, 21));
		break; }
	case OK_JTAB: { /* jump table: an aligned data area filled with label addresses by the code itself is not portable;
			   choose between two labels through registers instead */
		int j1, j2, l1, l2, r2;
		r = rsel(em, a[1]); mk_busy(em, r); r2 = rsel(em, a[2]);
		J(j1, sljit_emit_op_addr(em->c, SLJIT_MOV_ADDR, r, 0));
		J(j2, sljit_emit_op_addr(em->c, SLJIT_MOV_ADDR, r2, 0));
		E(sljit_emit_op2u(em->c, SLJIT_SUB | SLJIT_SET_Z, MS(OFF_W + (sljit_sw)(a3 % 60) * 8), SLJIT_IMM, imm_of(a[4])));
		E(sljit_emit_select(em->c, (a0 & 1) ? SLJIT_EQUAL : SLJIT_NOT_EQUAL, r, r2, 0, r));
		E(sljit_emit_ijump(em->c, SLJIT_JUMP, r, 0));
		l1 = new_label(em); set_lab(em, j1, l1);
		E(sljit_emit_op2(em->c, SLJIT_ADD, MS(OFF_W + 16), MS(OFF_W + 16), SLJIT_IMM, 5));
		l2 = new_label(em); set_lab(em, j2, l2);
		E(sljit_emit_op1(em->c, SLJIT_MOV, r, 0, SLJIT_IMM, 22)); E(sljit_emit_op1(em->c, SLJIT_MOV, r2, 0, SLJIT_IMM, 23));
		break; }
	case OK_MEMPAIR: {
		int r2; sljit_sw off = OFF_W + (sljit_sw)(a3 % 56) * 8;
		r = rsel(em, a[1]); mk_busy(em, r); r2 = rsel(em, a[2]);
		E(sljit_emit_mem(em->c, SLJIT_MOV | ((a0 & 1) ? SLJIT_MEM_STORE : SLJIT_MEM_LOAD) | ((a0 & 2) ? SLJIT_MEM_UNALIGNED : 0), SLJIT_REG_PAIR(r, r2), SLJIT_MEM1(SLJIT_S0), (a0 & 2) ? OFF_U + (sljit_sw)(a3 % 400) : off));
		break; }
	case OK_UNAL: {
		static const int ops[] = { SLJIT_MOV, SLJIT_MOV_U16, SLJIT_MOV_S16, SLJIT_MOV_U32, SLJIT_MOV_S32, SLJIT_MOV_P };
		r = rsel(em, a[1]);
		E(sljit_emit_mem(em->c, ops[a0 % 6] | ((a0 >> 8 & 1) ? SLJIT_MEM_STORE : 0) | SLJIT_MEM_UNALIGNED, r, SLJIT_MEM1(SLJIT_S0), OFF_U + (sljit_sw)(a3 % 480)));
		break; }
	case OK_MEMUPD: {
		static const int ops[] = { SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV_S8, SLJIT_MOV_U16, SLJIT_MOV_S16, SLJIT_MOV_U32, SLJIT_MOV_S32, SLJIT_MOV_P };
		int b = psel(em, a[2]), ty; sljit_sw d0 = (sljit_sw)((int64_t)(a4 % 16) - 8) * 8;
		if (b < 0) break;
		mk_busy(em, b); r = rsel(em, a[1]);
		if (r == b) break;
		ty = ops[a0 % 8] | ((a0 >> 8 & 1) ? SLJIT_MEM_STORE : 0) | ((a0 >> 9 & 1) ? SLJIT_MEM_POST : 0);
		if (sljit_emit_mem_update(em->c, ty | SLJIT_MEM_SUPP, r, SLJIT_MEM1(b), d0) != SLJIT_SUCCESS) {
			sljit_uw sz = em->c->size; int e;
			unsup(em, 4); e = sljit_emit_mem_update(em->c, ty, r, SLJIT_MEM1(b), d0); refused(em, e, sz); break; }
		E(sljit_emit_op2(em->c, SLJIT_ADD, b, 0, SLJIT_S0, 0, SLJIT_IMM, OFF_W + 128));
		E(sljit_emit_mem_update(em->c, ty, r, SLJIT_MEM1(b), d0));
		E(sljit_emit_op2(em->c, SLJIT_SUB, b, 0, b, 0, SLJIT_S0, 0));
		break; }
	case OK_FMEM: {
		int f32 = (int)(a0 & 1), f = fsel(em, a[1], f32);
		if (f < 0) break;
		E(sljit_emit_fmem(em->c, (f32 ? SLJIT_MOV_F32 : SLJIT_MOV_F64) | ((a0 & 2) ? SLJIT_MEM_STORE : 0) | ((a0 & 4) ? SLJIT_MEM_UNALIGNED : f32 || (a0 & 8) ? SLJIT_MEM_ALIGNED_16 : SLJIT_MEM_ALIGNED_32), f, SLJIT_MEM1(SLJIT_S0), (a0 & 4) ? OFF_U + (sljit_sw)(a3 % 480) : (f32 ? OFF_F32 : OFF_F64) + (sljit_sw)(a3 % 60) * 8));
		break; }
	case OK_SIMD: {
		int big = (a0 >> 20 & 3) == 1, rs = big ? SLJIT_SIMD_REG_256 : (a0 >> 20 & 3) == 2 ? SLJIT_SIMD_REG_64 : SLJIT_SIMD_REG_128, rb = big ? 5 : rs == SLJIT_SIMD_REG_64 ? 3 : 4;
		int el = (int)(a0 >> 22 & 3), fl = (a0 >> 24 & 1) && el >= 2, v, v2, ty, t2;
		int elem = el << 18 | (fl ? SLJIT_SIMD_FLOAT : 0), lanes = 1 << (rb - el), st = -1;
		sljit_sw off = OFF_V + (sljit_sw)(a3 % 12) * 32, off2 = OFF_V + (sljit_sw)(a4 % 12) * 32;
		if (em->nvs < 2) break;
		if (el == 3 && rb == 3) { el = 2; elem = el << 18; fl = 0; lanes = 2; }
		v = (int)(a1 % (unsigned)em->nvs); v2 = (int)(a2 % (unsigned)em->nvs);
		if (sljit_has_cpu_feature(SLJIT_SIMD_REGS_ARE_PAIRS)) { v &= ~1; v2 &= ~1; if (v + 1 >= em->nvs || v2 + 1 >= em->nvs) break; }
		ty = rs | elem | ((a0 >> 25 & 1) ? SLJIT_SIMD_MEM_ALIGNED_64 : 0);
		if (!T(5, sljit_emit_simd_mov(em->c, ty | SLJIT_SIMD_TEST, SLJIT_VR(v), SLJIT_MEM1(SLJIT_S0), off), sljit_emit_simd_mov(em->c, ty | SLJIT_SIMD_LOAD, SLJIT_VR(v), SLJIT_MEM1(SLJIT_S0), off))) break;
		E(sljit_emit_simd_mov(em->c, ty | SLJIT_SIMD_LOAD, SLJIT_VR(v2), SLJIT_MEM1(SLJIT_S0), off2));
		t2 = rs | elem;
		switch (a0 % 8) {
		case 0: if (fl) break;
			if (IS64 || el < 3) T(6, sljit_emit_simd_replicate(em->c, t2 | SLJIT_SIMD_TEST, SLJIT_VR(v), SLJIT_R1, 0), sljit_emit_simd_replicate(em->c, t2, SLJIT_VR(v), SLJIT_R1, 0));
			break;
		case 1: T(7, sljit_emit_simd_replicate(em->c, t2 | SLJIT_SIMD_TEST, SLJIT_VR(v), SLJIT_MEM1(SLJIT_S0), off2), sljit_emit_simd_replicate(em->c, t2, SLJIT_VR(v), SLJIT_MEM1(SLJIT_S0), off2));
			break;
		case 2: st = (int)(a5 % (unsigned)lanes);
			{ int m = (a5 >> 8 & 1) && !fl ? SLJIT_SIMD_LANE_ZERO : 0;
			T(7, sljit_emit_simd_lane_mov(em->c, t2 | m | SLJIT_SIMD_TEST, SLJIT_VR(v), st, SLJIT_MEM1(SLJIT_S0), off2), sljit_emit_simd_lane_mov(em->c, t2 | m, SLJIT_VR(v), st, SLJIT_MEM1(SLJIT_S0), off2)); }
			break;
		case 3: st = (int)(a5 % (unsigned)lanes);
			if (fl) { T(7, sljit_emit_simd_lane_mov(em->c, t2 | SLJIT_SIMD_STORE | SLJIT_SIMD_TEST, SLJIT_VR(v), st, SLJIT_MEM1(SLJIT_S0), off2), sljit_emit_simd_lane_mov(em->c, t2 | SLJIT_SIMD_STORE, SLJIT_VR(v), st, SLJIT_MEM1(SLJIT_S0), off2)); }
			else if (IS64 || el < 3) {
				int sg = (a5 >> 8 & 1) ? SLJIT_SIMD_LANE_SIGNED : 0;
				T(7, sljit_emit_simd_lane_mov(em->c, t2 | SLJIT_SIMD_STORE | sg | SLJIT_SIMD_TEST, SLJIT_VR(v), st, SLJIT_R1, 0), sljit_emit_simd_lane_mov(em->c, t2 | SLJIT_SIMD_STORE | sg, SLJIT_VR(v), st, SLJIT_R1, 0));
			}
			break;
		case 4: st = (int)(a5 % (unsigned)lanes);
			T(7, sljit_emit_simd_lane_replicate(em->c, t2 | SLJIT_SIMD_TEST, SLJIT_VR(v), SLJIT_VR(v2), st), sljit_emit_simd_lane_replicate(em->c, t2, SLJIT_VR(v), SLJIT_VR(v2), st));
			break;
		case 5: { int ex = el + 1 + (int)(a5 % 2); int t3;
			if (ex > 3) ex = 3;
			if (ex >= rb) ex = rb - 1;
			if (ex <= el || (fl && rb == 3)) break;
			t3 = (t2 & ~SLJIT_SIMD_FLOAT) | ex << 24 | ((a5 >> 8 & 1) ? SLJIT_SIMD_EXTEND_SIGNED : 0);
			if (fl) { if (el != 2) break; t3 = (t2 | 3 << 24); }
			T(7, sljit_emit_simd_extend(em->c, t3 | SLJIT_SIMD_TEST, SLJIT_VR(v), SLJIT_VR(v2), 0), sljit_emit_simd_extend(em->c, t3, SLJIT_VR(v), SLJIT_VR(v2), 0));
			break; }
		case 6:
			T(7, sljit_emit_simd_sign(em->c, t2 | SLJIT_SIMD_STORE | SLJIT_SIMD_TEST, SLJIT_VR(v), SLJIT_R1, 0), sljit_emit_simd_sign(em->c, t2 | SLJIT_SIMD_STORE, SLJIT_VR(v), SLJIT_R1, 0));
			break;
		default: { int op = 1 + (int)(a5 % 3);
			T(7, sljit_emit_simd_op2(em->c, t2 | op | SLJIT_SIMD_TEST, SLJIT_VR(v), SLJIT_VR(v), SLJIT_VR(v2), 0), sljit_emit_simd_op2(em->c, t2 | op, SLJIT_VR(v), SLJIT_VR(v), SLJIT_VR(v2), 0));
			break; }
		}
		E(sljit_emit_simd_mov(em->c, ty | SLJIT_SIMD_STORE, SLJIT_VR(v), SLJIT_MEM1(SLJIT_S0), off));
		for (int i = 0; i < em->nfp && i < em->nfs; i++) if ((i & ~1) == (v & ~1) || (i & ~1) == (v2 & ~1)) fconst(em, i);
		break; }
	case OK_ATOMIC: {
		static const int ops[] = { SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV_U16, SLJIT_MOV_U32, SLJIT_MOV32, SLJIT_MOV_P, SLJIT_MOV32_U8, SLJIT_MOV32_U16 };
		int op = ops[a0 % 8], m, dd, t, s, opt = (a0 >> 8 & 3) == 1 ? SLJIT_ATOMIC_USE_CAS : (a0 >> 8 & 3) == 2 ? SLJIT_ATOMIC_USE_LS : 0;
		sljit_sw off = OFF_W + (sljit_sw)(a3 % 60) * 8;
		m = psel(em, a[1]); mk_busy(em, m); dd = psel(em, a[2]); mk_busy(em, dd); t = psel(em, a[4]); mk_busy(em, t); s = psel(em, a[5]);
		if (m < 0 || dd < 0 || t < 0 || s < 0) break;
		if (!sljit_has_cpu_feature(SLJIT_HAS_ATOMIC)) { unsup(em, 8); break; }
		{ int el = sljit_emit_atomic_load(em->c, op | opt | SLJIT_ATOMIC_TEST, dd, m), es = sljit_emit_atomic_store(em->c, op | opt | SLJIT_ATOMIC_TEST, s, m, t), e; sljit_uw sz = em->c->size;
		if (el != SLJIT_SUCCESS) { e = sljit_emit_atomic_load(em->c, op | opt, dd, m); refused(em, e, sz); }
		if (es != SLJIT_SUCCESS) { e = sljit_emit_atomic_store(em->c, op | opt | SLJIT_SET_ATOMIC_STORED, s, m, t); refused(em, e, sz); }
		if (el != SLJIT_SUCCESS || es != SLJIT_SUCCESS) { unsup(em, 8); break; } }
		E(sljit_emit_op2(em->c, SLJIT_ADD, m, 0, SLJIT_S0, 0, SLJIT_IMM, off));
		lab = new_label(em);
		E(sljit_emit_atomic_load(em->c, op | opt, dd, m));
		E(sljit_emit_op1(em->c, SLJIT_MOV, t, 0, dd, 0));
		E(sljit_emit_op2(em->c, SLJIT_ADD, s, 0, dd, 0, SLJIT_IMM, 0x31));
		E(sljit_emit_atomic_store(em->c, op | opt | SLJIT_SET_ATOMIC_STORED, s, m, t));
		J(j, sljit_emit_jump(em->c, SLJIT_ATOMIC_NOT_STORED));
		set_lab(em, j, lab);
		for (int i = 0; i < 4; i++) { int q = i == 0 ? m : i == 1 ? dd : i == 2 ? t : s; E(sljit_emit_op1(em->c, SLJIT_MOV, q, 0, SLJIT_IMM, 40 + i)); }
		break; }
	case OK_FAST: {
		int jo, jc, lf, k; int viamem = (int)(a0 & 1);
		r = rsel(em, a[1]);
		J(jo, sljit_emit_jump(em->c, SLJIT_JUMP));
		lf = new_label(em);
		E(sljit_emit_op_dst(em->c, SLJIT_FAST_ENTER, viamem ? SLJIT_MEM1(SLJIT_SP) : r, viamem ? 64 : 0));
		E(sljit_emit_op2(em->c, SLJIT_ADD, MS(OFF_W + (sljit_sw)(a2 % 60) * 8), MS(OFF_W + (sljit_sw)(a2 % 60) * 8), SLJIT_IMM, imm_of(a[3])));
		if (a4 & 4) E(sljit_emit_op_src(em->c, SLJIT_SKIP_FRAMES_BEFORE_FAST_RETURN, viamem ? SLJIT_MEM1(SLJIT_SP) : r, viamem ? 64 : 0));
		E(sljit_emit_op_src(em->c, SLJIT_FAST_RETURN, viamem ? SLJIT_MEM1(SLJIT_SP) : r, viamem ? 64 : 0));
		set_lab(em, jo, new_label(em));
		for (k = 0; k < 1 + (int)(a4 & 1); k++) {
			if (a4 & 2) {
				int r2 = rsel(em, a[5]);
				J(jc, sljit_emit_op_addr(em->c, SLJIT_MOV_ADDR, r2, 0)); set_lab(em, jc, lf);
				E(sljit_emit_ijump(em->c, SLJIT_FAST_CALL, r2, 0));
				E(sljit_emit_op1(em->c, SLJIT_MOV, r2, 0, SLJIT_IMM, 31));
			} else { J(jc, sljit_emit_jump(em->c, SLJIT_FAST_CALL)); set_lab(em, jc, lf); }
		}
		E(sljit_emit_op1(em->c, SLJIT_MOV, r, 0, SLJIT_IMM, 32));
		break; }
	case OK_SUB: {
		int f = 1 + (int)(a0 & 1), conv = (int)plan_par(em->plan, PA_CONV + f, 0) % 3, rt = fn_ret(em, f);
		if (em->fn || em->nsubj[f] >= 32) break;
		E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_S0, 0));
		E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, imm_of(a[1])));
		J(j, sljit_emit_call(em->c, conv ? SLJIT_CALL_REG_ARG : SLJIT_CALL, SLJIT_ARGS2V(P, W) | rettype[rt]));
		em->subj[f][em->nsubj[f]++] = j;
		if (rt == 1) { Opd o0 = { SLJIT_R0, 0 }; back32(em, o0, 1); }
		else if (rt == 2) E(sljit_emit_fop1(em->c, SLJIT_MOV_F64, MS(OFF_F64 + (sljit_sw)(a2 % 60) * 8), SLJIT_FR0, 0));
		else if (rt == 3) E(sljit_emit_fop1(em->c, SLJIT_MOV_F32, MS(OFF_F32 + (sljit_sw)(a2 % 60) * 8), SLJIT_FR0, 0));
		refresh_scratch(em, rt < 2 ? SLJIT_R0 : 0);
		break; }
	case OK_ROBUF: {
		int slot = alloc_slot(em), jo, jm, n = 1 + (int)(a1 % 3), i; struct sljit_label *lp, *al; sljit_uw sz;
		if (slot < 0 || em->nloop || em->nrb + n > 8 || !em->ro_enabled) break;
		for (i = 0; i < n; i++) {
			struct sljit_read_only_buffer *b = em->bufs + em->nrb + i;
			sz = (i == 0) ? 16 : ((i == 1) ? 8 : 4 + 4 * ((a2 >> (4 * i)) & 15));
			b->next = i + 1 < n ? b + 1 : NULL; b->size = sz; b->u.label = NULL;
		}
		bind_pending(em, -1);
		J(jo, sljit_emit_jump(em->c, SLJIT_JUMP));
		tick(em);
		al = lp = sljit_emit_aligned_label(em->c, 2 + (int)(a3 % 3), em->bufs + em->nrb);
		ret_check(em, 0, !lp, 1);
		for (i = 0; i < n; i++) {
			BufSite *bs = em->rb + em->nrb + i;
			lp = em->bufs[em->nrb + i].u.label;
			if (al && !lp) sim_viol("ro-buffer", "a read-only buffer got no label");
			bs->lab = al ? (int)sljit_get_label_index(lp) : -1; bs->slot = i == 0 ? slot : alloc_slot(em); bs->size = em->bufs[em->nrb + i].size;
		}
		set_lab(em, jo, new_label(em));
		r = psel(em, a[4]);
		for (i = 0; i < n; i++) {
			BufSite *bs = em->rb + em->nrb + i;
			if (bs->slot < 0 || r < 0) continue;
			J(jm, sljit_emit_op_addr(em->c, SLJIT_MOV_ABS_ADDR, r, 0));
			set_lab(em, jm, bs->lab);
			E(sljit_emit_op1(em->c, SLJIT_MOV_U32, r, 0, SLJIT_MEM1(r), 0));
			E(sljit_emit_op1(em->c, SLJIT_MOV, MS(OFF_CS + bs->slot * 8), r, 0));
			E(sljit_emit_op1(em->c, SLJIT_MOV, r, 0, SLJIT_IMM, 51));
		}
		em->nrb += n;
		break; }
	case OK_RET: {
		/* conditional early return */
		if (em->nloop) break;
		J(j, sljit_emit_cmp(em->c, SLJIT_NOT_EQUAL, MS(OFF_W + (sljit_sw)(a0 % 60) * 8), SLJIT_IMM, imm_of(a[1])));
		em_return(em, a2);
		set_lab(em, j, new_label(em));
		break; }
	case OK_FILL: {
		int n = (int)(a0 % 2000000), k;
		int jf;
		J(jf, sljit_emit_jump(em->c, SLJIT_JUMP));
		tick(em);
		for (k = 0; k < n && !em->err; k++) { int q = (a[1] & 1) ? sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, (sljit_sw)(int32_t)(0x10001235u + (unsigned)k * 0x01010203u)) : sljit_emit_op0(em->c, SLJIT_NOP); if (q) { ret_check(em, q, 0, 0); break; } }
		set_lab(em, jf, new_label(em));
		em->nfill += n;
		break; }
	case OK_CTX: /* calls that emit little or nothing */
		switch (a0 % 7) {
		case 0: { /* small areas owned by the compiler */
			int len = 1 + (int)(a1 % (unsigned)(16 * WB)), k; unsigned char *q;
			if (a1 >> 20 & 1) { if (sljit_alloc_memory(em->c, (a1 >> 21 & 1) ? 0 : 16 * WB + 1 + (int)(a1 >> 22 & 63))) sim_viol("alloc-memory", "an area of a forbidden size was returned"); break; }
			amem_check(em);
			if (em->nam == 16) break;
			tick(em); q = sljit_alloc_memory(em->c, len); ret_check(em, 0, !q, 1);
			if (!q) break;
			if (em->am_owner != em->c) { em->nam = 0; em->am_owner = em->c; } /* replaced in this tick */
			if ((uintptr_t)q & (sizeof(sljit_sw) - 1)) sim_viol("alloc-memory", "area at %p is not aligned", (void *)q);
			em->am[em->nam].p = q; em->am[em->nam].len = len; em->am[em->nam].pat = (int)(a2 & 255);
			for (k = 0; k < len; k++) q[k] = (unsigned char)((a2 & 255) + (unsigned)k);
			em->nam++;
			amem_check(em);
			break; }
		case 1:
			if ((a2 & 7) == 7) { d.r = SLJIT_MEM0(); d.w = (sljit_sw)(a[3] & 0xffff8); }
			else if ((a2 & 7) == 6) { d.r = SLJIT_MEM1(SLJIT_S0); d.w = imm_of(a[3]); }
			else d = mem_opd(em, a3, OFF_W, 60, 8);
			E(sljit_emit_op_src(em->c, SLJIT_PREFETCH_L1 + (int)(a1 % 4), d.r, d.w));
			break;
		case 2: { /* nothing, encoded by the user */
			static const NopEnc nops[] = { NOP_ENCODINGS }; const NopEnc *q = nops + a1 % (sizeof nops / sizeof *nops); unsigned char b[8]; int k, n = 1 + (int)(a2 % 3);
			for (k = 0; k < n; k++) { memcpy(b, q->b, 8); E(sljit_emit_op_custom(em->c, b, (sljit_u32)q->len)); memset(b, 0, 8); }
			break; }
		case 3: E(sljit_emit_op0(em->c, (a1 & 1) ? SLJIT_ENDBR : SLJIT_SKIP_FRAMES_BEFORE_RETURN)); break;
		case 4: { /* the return address is the same wherever it is read to */
			r = psel(em, a[1]); if (r < 0) break;
			E(sljit_emit_op_dst(em->c, SLJIT_GET_RETURN_ADDRESS, r, 0));
			E(sljit_emit_op_dst(em->c, SLJIT_GET_RETURN_ADDRESS, SLJIT_MEM1(SLJIT_SP), 72));
			must_eq(em, r, SLJIT_MEM1(SLJIT_SP), 72, 101);
			E(sljit_emit_op1(em->c, SLJIT_MOV, r, 0, SLJIT_IMM, 61)); E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 72, SLJIT_IMM, 62));
			break; }
		case 5: { /* float moves with base update */
			int f32 = (int)(a1 & 1), f = fsel(em, a[2], f32), b = psel(em, a[3]), ty; sljit_sw d0 = (sljit_sw)((int64_t)(a4 % 16) - 8) * 8;
			if (f < 0 || b < 0) break;
			mk_busy(em, b);
			ty = (f32 ? SLJIT_MOV_F32 : SLJIT_MOV_F64) | ((a1 >> 1 & 1) ? SLJIT_MEM_STORE : 0) | ((a1 >> 2 & 1) ? SLJIT_MEM_POST : 0);
			if (sljit_emit_fmem_update(em->c, ty | SLJIT_MEM_SUPP, f, SLJIT_MEM1(b), d0) != SLJIT_SUCCESS) {
				sljit_uw sz = em->c->size; int e;
				unsup(em, 9); e = sljit_emit_fmem_update(em->c, ty, f, SLJIT_MEM1(b), d0); refused(em, e, sz); break; }
			E(sljit_emit_op2(em->c, SLJIT_ADD, b, 0, SLJIT_S0, 0, SLJIT_IMM, (f32 ? OFF_F32 : OFF_F64) + 128));
			E(sljit_emit_fmem_update(em->c, ty, f, SLJIT_MEM1(b), d0));
			E(sljit_emit_op2(em->c, SLJIT_SUB, b, 0, b, 0, SLJIT_S0, 0));
			must_eq(em, b, SLJIT_IMM, (f32 ? OFF_F32 : OFF_F64) + 128 + d0, 102);
			break; }
		default: { /* questions about the machine do not change anything */
			int k;
			for (k = 0; k < 24; k++) (void)sljit_has_cpu_feature(k);
			(void)sljit_cmp_info(SLJIT_EQUAL + (int)(a1 % 16)); (void)sljit_get_platform_name();
			for (k = 0; k < em->ngp; k++) (void)sljit_get_register_index(SLJIT_GP_REGISTER, em->gp[k]);
			for (k = 0; k < em->nfp; k++) { (void)sljit_get_register_index(SLJIT_FLOAT_REGISTER, em->fp[k]); }
			break; }
		}
		break;
	case OK_ADDRV: { /* addresses as values, with every encoding length */
		uint64_t v64; sljit_sw v, b = imm_of(a[6]); int op = (int)(a0 % 3), mem = (a0 >> 8 & 3) == 0, fl = (a0 >> 10 & 1) && op != SLJIT_ADD_ABS_ADDR, jv, jf = -1;
		v64 = (a1 & 7) < 5 ? (1ull << (8 + (a1 >> 3) % 56)) + (uint64_t)(((int64_t)(a2 % 9) - 4) * ((a2 >> 8 & 3) == 0 ? 1 : (a2 >> 8 & 3) == 1 ? 4 : (a2 >> 8 & 3) == 2 ? 0x400 : 0x400400)) : (a1 & 7) == 5 ? a2 >> (a1 >> 3 & 63) : (uint64_t)imm_of(a[2]);
		v = (sljit_sw)v64;
		if (a1 >> 12 & 1) v &= ~(sljit_sw)3;
		r = psel(em, a[3]); if (r < 0) break;
		mk_busy(em, r);
		d.r = r; d.w = 0;
		if (mem) d = mem_opd(em, a4, OFF_W, 60, 8);
		if (op == SLJIT_ADD_ABS_ADDR) E(sljit_emit_op1(em->c, SLJIT_MOV, d.r, d.w, SLJIT_IMM, b));
		if (fl) E(sljit_emit_op2u(em->c, SLJIT_SUB | SLJIT_SET_Z, SLJIT_S0, 0, SLJIT_S0, 0));
		J(jv, sljit_emit_op_addr(em->c, op, d.r, d.w));
		if (fl) J(jf, sljit_emit_jump(em->c, SLJIT_NOT_ZERO));
		if (a0 >> 11 & 1) { /* of a label: the two ways to get it agree */
			int j2, l1 = em->c->last_label && (a0 >> 12 & 1) ? -1 : new_label(em); struct sljit_label *lp;
			if (l1 < 0) { int n = 0; for (lp = sljit_get_first_label(em->c); lp; lp = sljit_get_next_label(lp)) n++; l1 = n ? (int)(a5 % (unsigned)n) : -1; }
			E(sljit_emit_op1(em->c, SLJIT_MOV, r, 0, d.r, d.w));
			if (op == SLJIT_ADD_ABS_ADDR) E(sljit_emit_op2(em->c, SLJIT_SUB, r, 0, r, 0, SLJIT_IMM, b));
			E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 72, r, 0));
			J(j2, sljit_emit_op_addr(em->c, op == SLJIT_MOV_ADDR ? SLJIT_MOV_ADDR : SLJIT_MOV_ABS_ADDR, r, 0));
			if (l1 < 0) l1 = new_label(em);
			set_lab(em, jv, l1); set_lab(em, j2, l1);
			must_eq(em, r, SLJIT_MEM1(SLJIT_SP), 72, 103);
		} else {
			set_tgt(em, jv, (sljit_uw)v);
#if (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2)
			if (op != SLJIT_MOV_ADDR) v &= ~(sljit_sw)1; /* targets are Thumb code addresses */
#endif
			if (mem) E(sljit_emit_op1(em->c, SLJIT_MOV, r, 0, d.r, d.w));
			must_eq(em, r, SLJIT_IMM, op == SLJIT_ADD_ABS_ADDR ? (sljit_sw)((sljit_uw)v + (sljit_uw)b) : v, 104);
		}
		if (jf >= 0) {
			int j2;
			J(j2, sljit_emit_jump(em->c, SLJIT_JUMP));
			set_lab(em, jf, new_label(em));
			E(sljit_emit_op1(em->c, SLJIT_MOV, MS(OFF_BAD), SLJIT_IMM, 105));
			set_lab(em, j2, new_label(em));
		}
		E(sljit_emit_op1(em->c, SLJIT_MOV, d.r, d.w, SLJIT_IMM, 63)); E(sljit_emit_op1(em->c, SLJIT_MOV, r, 0, SLJIT_IMM, 64)); E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 72, SLJIT_IMM, 62));
		break; }
	default: break;
	}
}

void em_init(Em *em, const Plan *p) { prog_nofp = !sljit_has_cpu_feature(SLJIT_HAS_FPU); sim_unsup = 0; memset(em, 0, sizeof *em); em->plan = p; em->ro_enabled = 1; }

static void fn_body(Em *em, int fn)
{
	for (int i = 0; i < em->plan->n; i++) {
		const Line *l = em->plan->l + i;
		if (l->k == 'O' && ((int)l->a[8] & 3) == fn) emit_op(em, l);
	}
	while (em->nloop) { Line le; memset(&le, 0, sizeof le); le.k = 'O'; le.op = OK_LE; emit_op(em, &le); }
	bind_pending(em, -1);
}

void em_emit(Em *em)
{
	int f, i, l, tail;
	fn_enter(em, 0);
	fn_body(em, 0);
	em->nbusy = 0;
	fn_dump(em);
	tail = (int)plan_par(em->plan, PA_TAIL, 0);
	if (tail == 1 && plan_par(em->plan, PA_CONV + 1, 0) % 3 == 0 && fn_ret(em, 1) == 0) {
		int j;
		E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_S0, 0));
		E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, 0x321));
		J(j, sljit_emit_call(em->c, SLJIT_CALL | SLJIT_CALL_RETURN, SLJIT_ARGS2(W, P, W)));
		if (em->nsubj[1] < 32) em->subj[1][em->nsubj[1]++] = j;
	} else if (tail == 2) {
		E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, 0x77));
		E(sljit_emit_op1(em->c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_IMM, 0x11));
		E(sljit_emit_icall(em->c, SLJIT_CALL | SLJIT_CALL_RETURN, SLJIT_ARGS2(W, W, W), SLJIT_IMM, SLJIT_FUNC_ADDR(cb_ww)));
	} else E(sljit_emit_return(em->c, SLJIT_MOV, em->gp[0], 0));
	for (f = 1; f < 3; f++) {
		if (!em->nsubj[f]) continue;
		l = new_label(em);
		for (i = 0; i < em->nsubj[f]; i++) set_lab(em, em->subj[f][i], l);
		em->nloop = 0;
		fn_enter(em, f);
		fn_body(em, f);
		em->nbusy = 0;
		fn_dump(em);
		if (fn_ret(em, f)) em_return(em, (uint64_t)plan_par(em->plan, PA_INIT, 1) * 0x9e3779b97f4a7c15ull >> 3);
		else E(sljit_emit_return(em->c, SLJIT_MOV, em->gp[em->ngp - 1], 0));
	}
	amem_check(em);
	STAT(ST_PROGRAMS);
}

void code_collect(Em *em, Code *c, void *code)
{
	struct sljit_label *l; struct sljit_jump *j; struct sljit_const *k;
	amem_check(em);
	memset(c, 0, sizeof *c);
	c->code = code;
	c->err = sljit_get_compiler_error(em->c);
	c->size = sljit_get_generated_code_size(em->c); c->eoff = sljit_get_executable_offset(em->c);
	for (l = sljit_get_first_label(em->c); l && c->nl < MAXH / 4; l = sljit_get_next_label(l)) c->lab[c->nl++] = sljit_get_label_addr(l);
	for (j = sljit_get_first_jump(em->c); j && c->nj < MAXH / 4; j = sljit_get_next_jump(j)) { c->jtg[c->nj] = sljit_jump_has_target(j) ? j->u.target : 0; c->jmp[c->nj++] = sljit_get_jump_addr(j); }
	for (k = sljit_get_first_const(em->c); k && c->nc < MAXH / 4; k = sljit_get_next_const(k)) c->cst[c->nc++] = sljit_get_const_addr(k);
	memcpy(c->cs, em->cs, sizeof c->cs); c->ncs = em->ncs;
	memcpy(c->rj, em->rj, sizeof c->rj); c->nrj = em->nrj;
	memcpy(c->rb, em->rb, sizeof c->rb); c->nrb = em->nrb;
}

/* ---------------- running ---------------- */
void st_init(const Plan *p)
{
	Rng r; uint64_t v; double d; float f; int i;
	r.s = (uint64_t)plan_par(p, PA_INIT, 1) * 77 + 5;
	for (i = 0; i < ST_SIZE; i += 8) { v = rnd(&r); memcpy(sim_st + i, &v, 8); }
	for (i = 0; i < 64; i++) { d = (double)(int32_t)rnd(&r) / 64.0; memcpy(sim_st + OFF_F64 + i * 8, &d, 8); }
	for (i = 0; i < 64; i++) { f = (float)(int16_t)rnd(&r) / 16.0f; memset(sim_st + OFF_F32 + i * 8, 0, 8); memcpy(sim_st + OFF_F32 + i * 8, &f, 4); }
	memset(sim_st + OFF_D, 0, ST_SIZE - OFF_D);
	sim_cb_count = 0;
}
uint64_t st_hash(void)
{
	uint64_t h = 0xcbf29ce484222325ull;
	for (int i = 0; i < ST_SIZE; i += 8) { uint64_t v; memcpy(&v, sim_st + i, 8); h = (h ^ v) * 0x100000001b3ull; h ^= h >> 31; }
	return h;
}
sljit_sw prog_call(const Plan *p, void *entry)
{
	union { void *v;
		sljit_sw (SLJIT_FUNC *f0)(void *);
		sljit_sw (SLJIT_FUNC *f1)(void *, sljit_sw, sljit_sw, sljit_sw);
		sljit_sw (SLJIT_FUNC *f2)(void *, sljit_f64, sljit_sw, sljit_f32);
		sljit_sw (SLJIT_FUNC *f3)(void *, sljit_s32, sljit_f64, sljit_s32);
		sljit_sw (SLJIT_FUNC *f4)(void *, sljit_sw, sljit_f64, sljit_sw);
		sljit_sw (SLJIT_FUNC *f5)(sljit_f32, void *, sljit_f32, sljit_f64);
	} u;
	u.v = entry;
	if (ICACHE_COHERENT) sim_code_sync_all();
	STAT(ST_EXECS);
	switch (prog_sig(p)) {
	case 1: return u.f1(sim_st, 0x1234, -5, 77);
	case 2: return u.f2(sim_st, 3.5, 1000, -2.25f);
	case 3: return u.f3(sim_st, -3, 8.5, 0x7654321);
	case 4: return u.f4(sim_st, 0x4321, 1.5, -9);
	case 5: return u.f5(1.25f, sim_st, -7.5f, 99.5);
	default: return u.f0(sim_st);
	}
}
void prog_bad(void)
{
	uint32_t b[2]; memcpy(b, sim_st + OFF_BAD, 8);
	if (b[0] | b[1]) sim_viol("wrong-value", "the generated code found a wrong value (check %u)", b[0] | b[1]);
}
uint64_t prog_run(const Plan *p, void *entry)
{
	sljit_sw r; const char *ph = sim_phase; int armed = os_armed;
	st_init(p);
	os_armed = 0;
	sim_phase = "execute";
	r = prog_call(p, entry);
	sim_phase = ph;
	os_armed = armed;
	prog_bad();
	if (sim_show > 1) for (int i = 0; i < ST_SIZE; i += 8) { uint64_t v; memcpy(&v, sim_st + i, 8); printf("S %d %016llx\n", i, (unsigned long long)v); }
	return st_hash() ^ (uint64_t)r * 0x9e3779b97f4a7c15ull;
}

int const_expected_len(const ConstSite *c)
{
	if (!c->mem) return WB;
	if (c->op == SLJIT_MOV) return WB;
	if (c->op == SLJIT_MOV_U8 || c->op == SLJIT_MOV32_U8) return 1;
	if (c->op == SLJIT_MOV_S32) return WB;
	return 4;
}
int64_t const_expected(const ConstSite *c, int64_t v)
{
	if (c->op == SLJIT_MOV) return v;
	if (c->op == SLJIT_MOV_U8 || c->op == SLJIT_MOV32_U8) return c->mem ? (v & 0xff) : v;
	return (int32_t)v;
}

/* ---------------- generator ---------------- */
void prog_gen(Plan *p, Rng *r, int nops, int flavour)
{
	static const unsigned char wt_all[OK_COUNT] = {
		[OK_MOVS] = 10, [OK_UN] = 4, [OK_OP2] = 14, [OK_OP2F] = 10, [OK_ADDC] = 2, [OK_MULADD] = 2, [OK_SHINTO] = 3, [OK_OP0] = 3, [OK_FOP1] = 4, [OK_FOP2] = 5, [OK_FSET] = 4, [OK_FCOPY] = 2,
		[OK_CONV] = 3, [OK_FCMP] = 4, [OK_CMP] = 6, [OK_LAB] = 6, [OK_LB] = 2, [OK_LE] = 2, [OK_CALL] = 3, [OK_ICALL] = 2, [OK_LOCAL] = 3, [OK_CONST] = 4, [OK_RJUMP] = 2, [OK_OPADDR] = 3, [OK_MEMPAIR] = 3,
		[OK_UNAL] = 2, [OK_MEMUPD] = 2, [OK_FMEM] = 2, [OK_SIMD] = 6, [OK_ATOMIC] = 3, [OK_FAST] = 3, [OK_SUB] = 3, [OK_ROBUF] = 2, [OK_OP2CMPZ] = 3, [OK_RET] = 1, [OK_FILL] = 0, [OK_CTX] = 4, [OK_ADDRV] = 3, [OK_FSEL] = 2, [OK_RCALL] = 2, [OK_RFAST] = 2, [OK_JTAB] = 2, [OK_LNOP] = 1, [OK_RCOND] = 2, [OK_FARJ] = 1, [OK_FARC] = 1 };
	unsigned char wt[OK_COUNT]; int tot = 0, i, f, k;
	memcpy(wt, wt_all, sizeof wt);
	/* swarm: switch a random subset of operations off */
	for (i = 0; i < OK_COUNT; i++) if (chance(r, 25)) wt[i] = 0;
	if (flavour == FLAVOUR_PATCH) { wt[OK_CONST] = 20; wt[OK_RJUMP] = 10; wt[OK_RCALL] = 8; wt[OK_RFAST] = 6; wt[OK_RCOND] = 8; wt[OK_ROBUF] = 5; wt[OK_FARJ] = 3; wt[OK_FARC] = 3; }
	if (flavour == FLAVOUR_FAR) { wt[OK_CALL] = 8; wt[OK_ICALL] = 6; wt[OK_CMP] = 14; wt[OK_LAB] = 8; wt[OK_OPADDR] = 8; wt[OK_JTAB] = 6; wt[OK_CONST] = 6; wt[OK_RJUMP] = 4; wt[OK_RCALL] = 8; wt[OK_FAST] = 8; wt[OK_SUB] = 5; wt[OK_ROBUF] = 4; wt[OK_FARJ] = 14; wt[OK_ADDRV] = 10; wt[OK_FARC] = 8; wt[OK_OP2CMPZ] = 5; wt[OK_FCMP] = 6; wt[OK_LB] = wt[OK_LE] = 3; }
	if (flavour == FLAVOUR_PURE) { wt[OK_ROBUF] = 0; }
	if (flavour == FLAVOUR_STEP) { wt[OK_CALL] = 6; wt[OK_ICALL] = 4; wt[OK_SUB] = 8; wt[OK_LOCAL] = 8; wt[OK_RET] = 3; wt[OK_FAST] = 5; }
	if (flavour == FLAVOUR_CPU) { wt[OK_ROBUF] = 0; wt[OK_UN] = 16; wt[OK_SIMD] = chance(r, 60) ? 20 : 0; wt[OK_OP2F] = 14; wt[OK_SHINTO] = 6; wt[OK_CONV] += 4; wt[OK_FSEL] += 3; wt[OK_FCMP] += 3; wt[OK_ATOMIC] += 3; wt[OK_MULADD] += 2; wt[OK_OP0] += 3; }
	wt[OK_MOVS] += 1;
	for (i = 0; i < OK_COUNT; i++) tot += wt[i];
	plan_add(p, 'P', PA_SIG, 1, (int64_t)rn(r, 6));
	plan_add(p, 'P', PA_OPTIONS, 1, (int64_t)rn(r, 4));
	plan_add(p, 'P', PA_TAIL, 1, (int64_t)(chance(r, 30) ? 1 + rn(r, 2) : 0));
	plan_add(p, 'P', PA_INIT, 1, (int64_t)rn(r, 1000000));
	for (f = 0; f < 3; f++) {
		int extreme = chance(r, 35);
		plan_add(p, 'P', PA_NSCR + f, 1, (int64_t)(extreme ? 40 : 4 + rn(r, 9)));
		plan_add(p, 'P', PA_NSAV + f, 1, (int64_t)(chance(r, 25) ? 40 : 1 + rn(r, 8)));
		plan_add(p, 'P', PA_NFS + f, 1, (int64_t)(chance(r, 20) ? 40 : 2 + rn(r, 7)));
		plan_add(p, 'P', PA_NFSAV + f, 1, (int64_t)(chance(r, 30) ? 40 : rn(r, 8)));
		plan_add(p, 'P', PA_NVS + f, 1, (int64_t)(chance(r, 60) ? 2 + rn(r, 6) : 0));
		plan_add(p, 'P', PA_CONV + f, 1, (int64_t)(rn(r, 3) + 3 * (chance(r, 40) ? rn(r, 4) : 0)));
		plan_add(p, 'P', PA_FNLOCAL + f, 1, (int64_t)(chance(r, 20) ? 4000 + rn(r, 40000) : chance(r, 40) ? 96 + rn(r, 700) : 96));
	}
	for (i = 0; i < nops; i++) {
		int x = (int)rn(r, (uint32_t)tot); Line *l;
		for (k = 0; x >= wt[k]; k++) x -= wt[k];
		l = plan_add(p, 'O', k, 0);
		for (int q = 0; q < 8; q++) l->a[q] = (int64_t)(rnd(r) >> 3);
		l->a[8] = chance(r, 75) ? 0 : 1 + (int64_t)rn(r, 2);
	}
}

/* instructions that are jumped over, at random places: they move the limits of constant pools, buffer fragments and short branches across the program */
void prog_pressure(Plan *p, Rng *r)
{
	int i, n;
	if (!chance(r, 30)) return;
	for (i = 0, n = 1 + (int)rn(r, 3); i < n; i++) {
		int j, at, k, lit = chance(r, 30), cnt = chance(r, 60) ? 900 + (int)rn(r, 200) : 1 + (int)rn(r, 1100); Line l;
		if (lit) cnt = chance(r, 50) ? 440 + (int)rn(r, 80) : 1 + (int)rn(r, 500);
		plan_add(p, 'O', OK_FILL, 2, (int64_t)cnt, (int64_t)lit);
		for (j = 0; j < p->n && p->l[j].k != 'O'; j++) ;
		at = j + (int)rn(r, (uint32_t)(p->n - j)); l = p->l[p->n - 1];
		for (k = p->n - 1; k > at; k--) p->l[k] = p->l[k - 1];
		p->l[at] = l;
	}
}
