#ifndef SIM_PROG_H
#define SIM_PROG_H
#include "core.h"
#include "sljitLir.h"
/* architectures whose instruction cache is not coherent with stores */
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86) || (defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X)
#define ICACHE_COHERENT 1
#else
#define ICACHE_COHERENT 0
#endif

/* parameters ('P' lines) */
enum { PA_SIG = 1, PA_LOCAL, PA_OPTIONS, PA_TAIL, PA_INIT, PA_FILL, PA_GUARD, PA_EXTRA, PA_MODE, PA_N, PA_PAGE, PA_HSEED, PA_K, PA_VERB, PA_WORK, PA_HUGE,
	PA_NSCR = 20 /* +fn */, PA_NSAV = 24, PA_NFS = 28, PA_NFSAV = 32, PA_NVS = 36, PA_CONV = 40, PA_FNLOCAL = 44 };

enum { OK_MOVS, OK_UN, OK_OP2, OK_OP2F, OK_ADDC, OK_MULADD, OK_SHINTO, OK_OP0, OK_FOP1, OK_FOP2, OK_FSET, OK_FCOPY, OK_CONV, OK_FCMP,
	OK_CMP, OK_LAB, OK_LB, OK_LE, OK_CALL, OK_ICALL, OK_LOCAL, OK_CONST, OK_RJUMP, OK_OPADDR, OK_MEMPAIR, OK_UNAL, OK_MEMUPD, OK_FMEM,
	OK_SIMD, OK_ATOMIC, OK_FAST, OK_SUB, OK_ROBUF, OK_OP2CMPZ, OK_RET, OK_FILL, OK_CTX, OK_FSEL, OK_RCALL, OK_RFAST, OK_JTAB, OK_LNOP, OK_RCOND, OK_FARJ, OK_FARC, OK_ADDRV, OK_COUNT };

#define ST_SIZE 4096
extern unsigned char sim_st[ST_SIZE];
#define OFF_W 0
#define OFF_F64 512
#define OFF_F32 1024
#define OFF_V 1536
#define OFF_U 2048
#define OFF_D 2560
#define OFF_DF 2816
#define OFF_SUBD 3328
#define OFF_CS 3584          /* const / tag slots, 8 bytes each */
#define NSLOT 48
#define OFF_ARG 3968
#define OFF_BAD 4072        /* set by generated code that meets a wrong value */
#define OFF_FAR 4064        /* where a far jump stub continues */

#define MAXH 4096
struct Em;
typedef struct { int idx, op, slot, mem; int64_t init; } ConstSite;
typedef struct { int idx, nl, lab[4], slot, kind; } JumpSite; /* kind 0 label targets, 1 C function targets */
typedef struct { int lab, slot; sljit_uw size; } BufSite;

typedef struct Em {
	struct sljit_compiler *c;
	const Plan *plan;
	void (*tick)(struct Em *em);
	void *user;
	int nticks, err, in_sub, fn;
	int err_is_final;
	int nscr, nsav, nfs, nfsav, nvs;
	int gp[40], ngp, fp[40], nfp, busy[8], nbusy; char baddr[8];
	int local;
	int pend[64], pendid[64], npend;
	int loopl[4], nloop;
	int nops, nfill;
	int ncall;
	ConstSite cs[NSLOT]; int ncs;
	JumpSite rj[NSLOT]; int nrj;
	BufSite rb[8]; int nrb;
	struct sljit_read_only_buffer bufs[8];
	int nslot;
	int subj[3][32], nsubj[3];
	int far_jumps;
	int no_call;               /* property forbids calls into C */
	int ro_enabled;
	struct { unsigned char *p; int len, pat; } am[16]; int nam; struct sljit_compiler *am_owner; /* sljit_alloc_memory */
} Em;

typedef struct {
	void *code; sljit_uw size; sljit_sw eoff;
	int err;
	int nl, nj, nc;
	sljit_uw lab[MAXH / 4], jmp[MAXH / 4], cst[MAXH / 4]; /* addresses */
	sljit_uw jtg[MAXH / 4]; /* absolute targets of the jumps, 0: none */
	ConstSite cs[NSLOT]; int ncs;
	JumpSite rj[NSLOT]; int nrj;
	BufSite rb[8]; int nrb;
} Code;

void prog_pressure(Plan *p, Rng *r);
void prog_gen(Plan *p, Rng *r, int nops, int flavour);
void em_init(Em *em, const Plan *p);
void em_emit(Em *em);                    /* everything between create and generate */
void code_collect(Em *em, Code *c, void *code); /* after a successful generate */
void prog_bad(void);
uint64_t prog_run(const Plan *p, void *entry);  /* run on fresh state, hash of all results */
void st_init(const Plan *p);
uint64_t st_hash(void);
sljit_sw prog_call(const Plan *p, void *entry);
int const_expected_len(const ConstSite *c);
int64_t const_expected(const ConstSite *c, int64_t v);
extern int sim_cb_count;
extern void (*sim_cb_hook)(void);
/* handles by creation order */
struct sljit_label *em_label_n(struct sljit_compiler *c, int i);
struct sljit_jump *em_jump_n(struct sljit_compiler *c, int i);
struct sljit_const *em_const_n(struct sljit_compiler *c, int i);
void sim_tagfn0(void *st, sljit_sw slot); 
extern void *sim_tagfns[4];
extern sljit_uw sim_tagfn_addr[4];
extern sljit_uw sim_farjmp_addr[4]; /* stubs that jump to the address at S0 + OFF_FAR; 0: none */
#define FLAVOUR_ALL 0
#define FLAVOUR_PATCH 1
#define FLAVOUR_FAR 2
#define FLAVOUR_PURE 3
#define FLAVOUR_STEP 4
#define FLAVOUR_WIDE 5
#define FLAVOUR_CPU 6
extern uint64_t prog_kinds_used, sim_unsup;
extern int prog_nofp;
#endif
