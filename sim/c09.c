/* ============ C08 / C09: generated code under a controlled processor ============ */
#include "ctl.h"
volatile uint64_t sim_ctl[CT_TOTAL];
void sim_ctl_stop(void); void sim_ctl_exit(void); void sim_ctl_clr(void);
__attribute__((noinline, noclone)) void sim_ctl_stop(void) { __asm__ volatile ("" ::: "memory"); sim_ctl[CT_B]++; }
static void (*volatile ctl_stop_fn)(void) = sim_ctl_stop;
static void (*volatile ctl_keep_fn[2])(void) = { sim_ctl_exit, sim_ctl_clr };

static void ctl_report(void)
{
	long steps = (long)sim_ctl[CT_STEPS], off = (long)sim_ctl[CT_B]; char nm[17]; const char *ph;
	ph = off >= 0 && (uint64_t)off < sim_ctl[CT_SIZE] ? "inside" : "outside";
	memcpy(nm, (void *)(uintptr_t)(sim_ctl + CT_REGS), 16); nm[16] = 0;
	sim_phase = "interrupt";
	switch (sim_ctl[CT_STATUS]) {
	case CS_OK: return;
	case CS_SP_ABOVE: sim_viol("sp-above-frame", "after %ld instructions the stack pointer is above its value at the call, code offset %ld (%s)", steps, off, ph);
	case CS_SP_FAR: sim_viol("sp-out-of-stack", "after %ld instructions the stack pointer is far outside of the stack, code offset %ld (%s)", steps, off, ph);
	case CS_SP_ALIGN: sim_viol("sp-misaligned", "after %ld instructions the stack pointer is not aligned, code offset %ld (%s)", steps, off, ph);
	case CS_SP_CALL: sim_viol("sp-misaligned-call", "a C function is called with a stack pointer ending in 0x%lx", (long)sim_ctl[CT_A]);
	case CS_SP_RETURN: sim_viol("sp-not-restored", "the stack pointer is not restored at the return");
	case CS_REG: sim_viol("saved-register", "the function does not preserve register %s", nm);
	case CS_FRAME: sim_viol("caller-frame", "the function changed its caller's frame, %ld bytes above the stack pointer at the call", (long)sim_ctl[CT_A]);
	case CS_LIMIT: sim_viol("no-end", "no return after %ld instructions", steps);
	default: sim_harness_error("no controller (status %ld)", (long)sim_ctl[CT_STATUS]);
	}
}
void sim_ctl_exit(void) { ctl_report(); sim_harness_error("controller ended a run without a reason"); }
/* loses any reservation, as an interrupt does */
__attribute__((noinline, noclone, aligned(16))) void sim_ctl_clr(void)
{
#if defined __aarch64__
	__asm__ volatile ("clrex" ::: "memory");
#elif defined __arm__
	__asm__ volatile ("clrex" ::: "memory");
#elif defined __riscv
	{ static long d; long t; __asm__ volatile ("sc.w %0, %0, (%1)" : "=&r" (t) : "r" (&d) : "memory"); }
#elif defined __powerpc__
	{ static long d; __asm__ volatile ("stwcx. %0, 0, %0" :: "r" (&d) : "memory", "cr0"); }
#elif defined __mips__
	{ static long d; long t; __asm__ volatile ("ll %0, 0(%1)" : "=r" (t) : "r" (&d) : "memory"); } /* (a failing sc drops nothing in qemu) */
#elif defined __loongarch__
	{ static long d; long t; __asm__ volatile ("ll.w %0, %1, 0" : "=r" (t) : "r" (&d) : "memory"); }
#endif
}

/* ---- C09 ---- */
static void c09_gen(Plan *p, Rng *r)
{
	prog_gen(p, r, 1 + (int)rn(r, chance(r, 30) ? 30 : 12), chance(r, 70) ? FLAVOUR_STEP : FLAVOUR_ALL);
	plan_add(p, 'P', PA_K, 1, (int64_t)rn(r, 1 << 20));
}
static void c09_exec(Plan *p)
{
	Twin t; BuildOpt o; Code c; uint64_t h;
	os_armed = 1; memset(&o, 0, sizeof o);
	(void)ctl_keep_fn[0];
	twin_make(p, &t, &o);
	world_clean("twin");
	memset(&o, 0, sizeof o);
	if (!build(p, &c, &o)) sim_viol("spurious-error", "compilation failed with error %d", o.error);
	sim_ctl[CT_STATUS] = 0; sim_ctl[CT_CMD] = CC_STEP; sim_ctl[CT_CODE] = (uintptr_t)CODE_PTR(c.code); sim_ctl[CT_SIZE] = c.size;
	sim_ctl[CT_ENTRY] = (uintptr_t)c.code; sim_ctl[CT_SEED] = (uint64_t)plan_par(p, PA_K, 0); sim_ctl[CT_MAX] = 20000;
	ctl_stop_fn();
	h = prog_run(p, c.code);
	ctl_report();
	if (h != t.hash) { sim_phase = "interrupt"; sim_viol("interrupted-result", "the program computes something else when it is interrupted after every instruction"); }
	STATN(ST_STEPS, sim_ctl[CT_STEPS]); STATN(ST_SWITCH, sim_ctl[CT_INJ]);
	sim_ev(h); sim_ev(sim_ctl[CT_STEPS]); sim_ev(sim_ctl[CT_CALLS]);
	sim_state(sim_ctl[CT_DEPTH] * 4096 + sim_ctl[CT_STEPS]);
	sljit_free_code(c.code, NULL);
	world_clean("stepped");
	twin_free(&t);
}

/* ---- C08 ---- */
typedef struct { sljit_sw cell, count, log, d, left, pad[3]; } A8Ctx; /* used by generated code */
typedef struct { sljit_uw old, neu; } A8Log;
#define A8_MAX 8
static A8Ctx a8c[4]; static A8Log a8l[4][A8_MAX + 1];
static unsigned char a8mem[64] __attribute__((aligned(64))); static unsigned char *a8stk;
enum { K8_ADD, K8_XCHG, K8_XOR, K8_ONCE, K8_NEIGH, K8_COUNT };
static const int a8_ops[] = { SLJIT_MOV, SLJIT_MOV_U8, SLJIT_MOV_U16, SLJIT_MOV_U32, SLJIT_MOV32, SLJIT_MOV_P, SLJIT_MOV32_U8, SLJIT_MOV32_U16, SLJIT_MOV_S8, SLJIT_MOV_S16, SLJIT_MOV_S32 };
static int a8_size(int op)
{
	switch (op) {
	case SLJIT_MOV: case SLJIT_MOV_P: return (int)sizeof(sljit_sw);
	case SLJIT_MOV_U8: case SLJIT_MOV32_U8: case SLJIT_MOV_S8: return 1;
	case SLJIT_MOV_U16: case SLJIT_MOV32_U16: case SLJIT_MOV_S16: return 2;
	default: return 4;
	}
}
static void c08_gen(Plan *p, Rng *r)
{
	int n = 2 + (int)(chance(r, 25) ? 1 + rn(r, 2) : 0), i, k;
	plan_add(p, 'P', PA_N, 1, (int64_t)n);
	plan_add(p, 'P', PA_MODE, 1, (int64_t)rn(r, 11));
	plan_add(p, 'P', PA_OPTIONS, 1, (int64_t)rn(r, 3));
	plan_add(p, 'P', PA_EXTRA, 1, (int64_t)rn(r, 64)); /* place of the cell */
	plan_add(p, 'P', PA_INIT, 1, (int64_t)rn(r, 1 << 30));
	for (i = 0; i < n; i++) {
		uint32_t x = rn(r, 100); int kind = x < 40 ? K8_ADD : x < 60 ? K8_XCHG : x < 70 ? K8_XOR : x < 90 ? K8_ONCE : K8_NEIGH;
		plan_add(p, 'A', kind, 3, (int64_t)(1 + rn(r, chance(r, 50) ? 2 : 5)), (int64_t)rnd(r), (int64_t)(rnd(r) >> 8));
	}
	for (i = 0, k = 1 + (int)rn(r, chance(r, 50) ? 8 : 40); i < k; i++) plan_add(p, 'S', 0, 2, (int64_t)rn(r, (uint32_t)n), (int64_t)(1 + rn(r, chance(r, 60) ? 6 : 40)));
}
static void *c08_compile(int kind, int op, int opt, uint64_t rs, int size, Code *out)
{
	struct sljit_compiler *c; Rng r; int q[10], nq = 9, i, m, m2, d, t, s, o, x, nv, imm, pre, var, used = 0; struct sljit_label *top, *retry; struct sljit_jump *j, *jn; void *code;
	static const int regs[] = { SLJIT_R0, SLJIT_R1, SLJIT_R2, SLJIT_S1, SLJIT_S2, SLJIT_R3, SLJIT_R4, SLJIT_S3, SLJIT_S4 };
	r.s = rs;
	c = sljit_create_compiler(NULL);
	if (!c) sim_viol("spurious-error", "no compiler");
#if (defined SLJIT_VERBOSE && SLJIT_VERBOSE)
	if (sim_show) sljit_compiler_verbose(c, stdout);
#endif
	for (i = 0; i < 9; i++) q[i] = regs[i];
	for (i = 4; i > 0; i--) { int k = (int)rn(&r, (uint32_t)i + 1); x = q[i]; q[i] = q[k]; q[k] = x; } /* the address is never in a virtual register */
	m = q[0]; m2 = rn(&r, 3) ? m : q[1];
	x = q[2]; q[2] = q[6]; q[6] = x; /* nor is the address of the record */
	for (i = 8; i > 2; i--) { int k = 2 + (int)rn(&r, (uint32_t)i - 1); if (k == 6 || i == 6) continue; x = q[i]; q[i] = q[k]; q[k] = x; }
	if (m2 == m && rn(&r, 2)) { x = q[1]; q[1] = q[2]; q[2] = x; }
	d = m2 == m ? q[1] : q[5]; t = q[2]; s = q[3]; o = q[4]; x = q[6]; nv = s;
	var = (int)rn(&r, 8); imm = (int)(rs >> 7 & 0x7fff) | 1;
	/* operations on virtual registers may use the temporary register */
	if ((var == 1 || var == 2) && kind != K8_XCHG && (s == SLJIT_R3 || s == SLJIT_R4 || s == SLJIT_S3 || s == SLJIT_S4 || o == SLJIT_R3 || o == SLJIT_R4 || o == SLJIT_S3 || o == SLJIT_S4)) var = 7;
	if (sljit_emit_enter(c, 0, SLJIT_ARGS1V(P), 5, 5, 0) != SLJIT_SUCCESS) sim_viol("spurious-error", "enter");
	for (i = 7; i < nq; i++) sljit_emit_op1(c, SLJIT_MOV, q[i], 0, SLJIT_IMM, (sljit_sw)(0x5a5a1234u + (unsigned)i * 0x1111u));
	top = sljit_emit_label(c);
	j = NULL;
	retry = top;
	sljit_emit_op1(c, SLJIT_MOV, m, 0, SLJIT_MEM1(SLJIT_S0), (sljit_sw)offsetof(A8Ctx, cell));
	if (kind == K8_NEIGH) {
		/* plain stores of 1, 2, 3.. to the bytes next to the cell */
		sljit_emit_op2(c, SLJIT_ADD, x, 0, SLJIT_MEM1(SLJIT_S0), (sljit_sw)offsetof(A8Ctx, d), SLJIT_IMM, 1);
		sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_S0), (sljit_sw)offsetof(A8Ctx, d), x, 0);
		sljit_emit_op1(c, SLJIT_MOV_U8, SLJIT_MEM1(m), -1, x, 0);
		sljit_emit_op1(c, SLJIT_MOV_U8, SLJIT_MEM1(m), size, x, 0);
	} else {
		pre = (int)rn(&r, 3);
		if (m2 != m) sljit_emit_op1(c, SLJIT_MOV, m2, 0, m, 0);
		if (pre) retry = sljit_emit_label(c);
		switch (var) {
		case 0: t = d; break;                                          /* the loaded register itself is the temporary one */
		case 1: d = t = SLJIT_TMP_DEST_REG; imm &= 0x3ff; break;
		case 2: s = SLJIT_TMP_DEST_REG; imm &= 0x3ff; break;
		case 3: if (kind == K8_XCHG && sizeof(sljit_sw) >= (size_t)size) s = m2; break; /* stores the address */
#if !(defined SLJIT_CONFIG_LOONGARCH && SLJIT_CONFIG_LOONGARCH) /* the emulator loses the reservation of ll rX, rX, 0 there */
		case 4: if (m2 != m && !pre) { d = m; } break;                   /* the load overwrites its address */
#endif
		default: break;
		}
		sljit_emit_atomic_load(c, op | opt, d, m);
		for (i = (int)rn(&r, 3); i > 0; i--) sljit_emit_op0(c, SLJIT_NOP);
		if (d == SLJIT_TMP_DEST_REG || (var == 5 && t == d)) sljit_emit_op1(c, SLJIT_MOV, o, 0, d, 0);
		if (t != d) sljit_emit_op1(c, SLJIT_MOV, t, 0, d, 0);
		if (s == m2) ;
		else if (kind == K8_XCHG) sljit_emit_op1(c, SLJIT_MOV, s, 0, SLJIT_IMM, imm);
		else sljit_emit_op2(c, kind == K8_XOR ? SLJIT_XOR : SLJIT_ADD, s, 0, d == SLJIT_TMP_DEST_REG ? o : d, 0, SLJIT_IMM, imm);
		sljit_emit_atomic_store(c, op | opt | SLJIT_SET_ATOMIC_STORED, s, m2, t);
		if (kind == K8_ONCE && rn(&r, 2)) {
			/* one attempt: skip the record */
			j = sljit_emit_jump(c, SLJIT_ATOMIC_NOT_STORED);
		} else if (kind == K8_ONCE) {
			struct sljit_jump *y = sljit_emit_jump(c, SLJIT_ATOMIC_STORED);
			j = sljit_emit_jump(c, SLJIT_JUMP);
			sljit_set_label(y, sljit_emit_label(c));
		} else {
			jn = sljit_emit_jump(c, SLJIT_ATOMIC_NOT_STORED);
			sljit_set_label(jn, retry);
		}
		/* temp_reg keeps its value when the store is done */
		if (d != SLJIT_TMP_DEST_REG) o = opt != SLJIT_ATOMIC_USE_LS && rn(&r, 2) ? t : t == d || rn(&r, 2) ? d : t;
		if (opt == SLJIT_ATOMIC_USE_LS && o == t && t != d) o = d;
		if (s == SLJIT_TMP_DEST_REG) {
			if (kind == K8_XCHG) sljit_emit_op1(c, SLJIT_MOV, nv, 0, SLJIT_IMM, imm);
			else sljit_emit_op2(c, kind == K8_XOR ? SLJIT_XOR : SLJIT_ADD, nv, 0, o, 0, SLJIT_IMM, imm);
		} else nv = s;
		sljit_emit_op1(c, SLJIT_MOV, x, 0, SLJIT_MEM1(SLJIT_S0), (sljit_sw)offsetof(A8Ctx, log));
		sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(x), 0, o, 0);
		sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(x), (sljit_sw)sizeof(sljit_sw), nv, 0);
		sljit_emit_op2(c, SLJIT_ADD, SLJIT_MEM1(SLJIT_S0), (sljit_sw)offsetof(A8Ctx, log), x, 0, SLJIT_IMM, (sljit_sw)sizeof(A8Log));
		if (j) sljit_set_label(j, sljit_emit_label(c));
		used = 1;
	}
	/* no other register changes */
	for (i = 7; used && i < nq; i++) {
		j = sljit_emit_cmp(c, SLJIT_EQUAL, q[i], 0, SLJIT_IMM, (sljit_sw)(0x5a5a1234u + (unsigned)i * 0x1111u));
		sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_S0), (sljit_sw)offsetof(A8Ctx, pad), SLJIT_IMM, q[i]);
		sljit_set_label(j, sljit_emit_label(c));
	}
	sljit_emit_op2(c, SLJIT_SUB | SLJIT_SET_Z, SLJIT_MEM1(SLJIT_S0), (sljit_sw)offsetof(A8Ctx, count), SLJIT_MEM1(SLJIT_S0), (sljit_sw)offsetof(A8Ctx, count), SLJIT_IMM, 1);
	j = sljit_emit_jump(c, SLJIT_NOT_ZERO);
	sljit_set_label(j, top);
	sljit_emit_return_void(c);
	code = sljit_generate_code(c, 0, NULL);
	if (!code) sim_viol("spurious-error", "compilation failed with error %d", sljit_get_compiler_error(c));
	out->code = code; out->size = sljit_get_generated_code_size(c);
	sljit_free_compiler(c);
	return code;
}
static int fl_unsigned(int op) { return op != SLJIT_MOV_S8 && op != SLJIT_MOV_S16 && op != SLJIT_MOV_S32 && op != SLJIT_MOV32; }
static uint64_t a8_mask(int size) { return size == 8 ? ~(uint64_t)0 : ((uint64_t)1 << 8 * size) - 1; }
static uint64_t a8_read(const unsigned char *m, int size)
{
	uint8_t a; uint16_t b; uint32_t c; uint64_t d;
	switch (size) { case 1: memcpy(&a, m, 1); return a; case 2: memcpy(&b, m, 2); return b; case 4: memcpy(&c, m, 4); return c; default: memcpy(&d, m, 8); return d; }
}
static int a8n, a8cnt[4], a8pos[4]; static uint64_t a8final, a8m; static unsigned char a8seen[(A8_MAX + 1) * (A8_MAX + 1) * (A8_MAX + 1) * (A8_MAX + 1)][4];
/* is there an order of all recorded updates, respecting each processor's own order, in which each sees the previous value? */
static int a8_lin(uint64_t cur, int last)
{
	int i, k = 0, all = 1;
	for (i = 0; i < a8n; i++) { k = k * (A8_MAX + 1) + a8pos[i]; if (a8pos[i] < a8cnt[i]) all = 0; }
	if (all) return cur == a8final;
	if (a8seen[k][last]) return 0;
	a8seen[k][last] = 1; /* the current value is a function of the last update of `last` */
	for (i = 0; i < a8n; i++) if (a8pos[i] < a8cnt[i] && (a8l[i][a8pos[i]].old & a8m) == cur) {
		a8pos[i]++;
		if (a8_lin(a8l[i][a8pos[i] - 1].neu & a8m, i)) { a8pos[i]--; return 1; }
		a8pos[i]--;
	}
	return 0;
}
static int a8_supported(int op, int opt)
{
	struct sljit_compiler *c = sljit_create_compiler(NULL); int ok;
	if (!c) sim_viol("spurious-error", "no compiler");
	sljit_emit_enter(c, 0, SLJIT_ARGS1V(P), 4, 4, 0);
	ok = sljit_emit_atomic_load(c, op | opt | SLJIT_ATOMIC_TEST, SLJIT_R0, SLJIT_R1) == SLJIT_SUCCESS;
	if (sljit_get_compiler_error(c) == SLJIT_SUCCESS && (sljit_emit_atomic_store(c, op | opt | SLJIT_ATOMIC_TEST, SLJIT_R0, SLJIT_R1, SLJIT_R2) == SLJIT_SUCCESS) != ok) sim_viol("test-form", "the test forms of the load and of the store do not agree");
	sljit_free_compiler(c);
	return ok;
}
static void c08_exec(Plan *p)
{
	static const int opts[] = { 0, SLJIT_ATOMIC_USE_CAS, SLJIT_ATOMIC_USE_LS };
	int n = 0, i, k, myopt, op = a8_ops[plan_par(p, PA_MODE, 0) % 11], oo = (int)plan_par(p, PA_OPTIONS, 0), opt = oo == 1 ? SLJIT_ATOMIC_USE_CAS : oo == 2 ? SLJIT_ATOMIC_USE_LS : 0, size = a8_size(op), off, ns = 0, neigh = -1; Code c[4]; int kind[4], cnt[4]; uint64_t init; unsigned char was[64], *cell; Rng r;
	os_armed = 1; faults_reset(); sim_phase = "support";
	(void)oo;
	for (i = 0; i < 11 && !a8_supported(op, opt); i++) { if (a8_supported(op, 0)) { opt = 0; break; } op = a8_ops[(plan_par(p, PA_MODE, 0) + i + 1) % 11]; }
	if (i == 11) { STAT(ST_UNSUPP); world_clean("unsupported"); return; }
	size = a8_size(op);
	if (!a8stk) a8stk = malloc(5 * 65536);
	memset(a8c, 0, sizeof a8c); memset(a8l, 0, sizeof a8l);
	r.s = (uint64_t)plan_par(p, PA_INIT, 1); for (i = 0; i < 64; i++) a8mem[i] = (unsigned char)(rnd(&r) >> 9);
	off = (int)((uint64_t)plan_par(p, PA_EXTRA, 0) % 48) / size * size; if (off == 0) off = size > 1 ? size : 1;
	cell = a8mem + off;
	if (r.s & 1) memset(cell, 0xff, (size_t)size);
	init = a8_read(cell, size);
	for (i = 0; i < p->n && n < 4; i++) {
		Line *l = p->l + i;
		if (l->k != 'A') continue;
		kind[n] = l->op % K8_COUNT; if (kind[n] == K8_NEIGH && (neigh >= 0)) kind[n] = K8_ADD;
		if (kind[n] == K8_NEIGH) neigh = n;
		cnt[n] = 1 + (int)((uint64_t)(l->a[0] - 1) % (A8_MAX - 1));
		sim_phase = "compile";
		/* processors may use different forms on the same cell */
		myopt = opts[(uint64_t)l->a[2] % 3]; if (!((uint64_t)l->a[2] >> 8 & 3) || !a8_supported(op, myopt)) myopt = opt;
		if (!c08_compile(kind[n], op, myopt, (uint64_t)l->a[1], size, c + n)) { while (n--) sljit_free_code(c[n].code, NULL); world_clean("unsupported"); return; }
		a8c[n].cell = (sljit_sw)(uintptr_t)cell; a8c[n].count = cnt[n]; a8c[n].log = (sljit_sw)(uintptr_t)a8l[n];
		n++;
	}
	if (!n) return;
	memcpy(was, a8mem, 64);
	sim_ctl[CT_STATUS] = 0; sim_ctl[CT_CMD] = CC_CPUS; sim_ctl[CT_MAX] = 30000; sim_ctl[CT_NCPU] = (uint64_t)n;
	for (i = 0; i < n; i++) {
		/* as at a call: aligned, the return address comes on top where the machine has it on the stack */
		sim_ctl[CT_CPU + 3 * i] = (uintptr_t)c[i].code; sim_ctl[CT_CPU + 3 * i + 1] = ((uintptr_t)a8stk + (unsigned)(i + 1) * 65536 - 4096) & ~(uintptr_t)63; sim_ctl[CT_CPU + 3 * i + 2] = (uintptr_t)(a8c + i);
	}
	sim_ctl[CT_CPU + 3 * n + 1] = ((uintptr_t)a8stk + 5 * 65536 - 4096) & ~(uintptr_t)63;
	for (i = 0; i < p->n && ns < 200; i++) if (p->l[i].k == 'S') { sim_ctl[CT_SCHED + 2 * ns] = (uint64_t)p->l[i].a[0] % (unsigned)n; sim_ctl[CT_SCHED + 2 * ns + 1] = 1 + (uint64_t)(p->l[i].a[1] - 1) % 200; ns++; }
	sim_ctl[CT_NSCHED] = (uint64_t)ns;
	sim_phase = "cpus";
	os_armed = 0;
	ctl_stop_fn();
	os_armed = 1;
	if (sim_ctl[CT_STATUS] == CS_LIMIT) sim_viol("no-progress", "the threads do not end after %ld instructions although interference stopped", (long)sim_ctl[CT_STEPS]);
	if (sim_ctl[CT_STATUS] != CS_OK) sim_harness_error("no controller (status %ld)", (long)sim_ctl[CT_STATUS]);
	/* the history */
	a8m = a8_mask(size); a8final = a8_read(cell, size); a8n = n;
	for (i = 0; i < n; i++) {
		int got = (int)((A8Log *)(uintptr_t)a8c[i].log - a8l[i]);
		if (a8c[i].pad[0]) sim_viol("register-lost", "processor %d: register %ld was changed by an atomic operation that does not name it", i, (long)a8c[i].pad[0]);
		if (a8c[i].count) sim_viol("lost-thread", "processor %d stopped with %ld iterations left", i, (long)a8c[i].count);
		if (kind[i] == K8_NEIGH) got = 0;
		else if (kind[i] != K8_ONCE && got != cnt[i]) sim_viol("lost-thread", "processor %d recorded %d of %d updates", i, got, cnt[i]);
		if (got > cnt[i]) sim_viol("lost-thread", "processor %d recorded %d updates", i, got);
		a8cnt[i] = got; a8pos[i] = 0;
		for (k = 0; k < got; k++) {
			uint64_t o = a8l[i][k].old, w = (op & SLJIT_32) ? 0xffffffffu : ~(uint64_t)0;
			if (fl_unsigned(op) && (o & w & ~a8m & (sizeof(sljit_uw) == 8 ? ~(uint64_t)0 : 0xffffffffu)) && size < (int)sizeof(sljit_sw)) sim_viol("load-extension", "the atomic load of %d bytes returned 0x%llx", size, (unsigned long long)o);
			sim_ev(o & a8m);
		}
	}
	memset(a8seen, 0, sizeof a8seen);
	if (!a8_lin(init, n > 1 ? 0 : 0)) {
		uint64_t v = init; int tot = 0; for (i = 0; i < n; i++) tot += a8cnt[i];
		sim_viol("not-linearizable", "%d stored updates of %d bytes (first seen %llx, initial %llx, final %llx) have no order in which each one follows the value it loaded", tot, size, (unsigned long long)(a8cnt[0] ? a8l[0][0].old & a8m : 0), (unsigned long long)v, (unsigned long long)a8final);
	}
	for (i = 0; i < 64; i++) if (i < off || i >= off + size) {
		int want = was[i];
		if (neigh >= 0 && (i == off - 1 || i == off + size)) want = cnt[neigh] & 0xff;
		if (a8mem[i] != want) sim_viol("neighbour", "the byte at %d next to the atomic cell of %d bytes is 0x%x instead of 0x%x", i - off, size, a8mem[i], want);
	}
	STATN(ST_STEPS, sim_ctl[CT_STEPS]); STATN(ST_SWITCH, sim_ctl[CT_SW]); STATN(ST_RACECHK, sim_ctl[CT_SPLITS]);
	sim_ev(a8final); sim_ev(sim_ctl[CT_STEPS]);
	sim_state(sim_hash);
	for (i = 0; i < n; i++) sljit_free_code(c[i].code, NULL);
	world_clean("atomic");
}
