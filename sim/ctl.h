#ifndef SIM_CTL_H
#define SIM_CTL_H
/* The shared page of a guest and its controller: sim_ctl[] in guest byte order. */
enum { CT_CMD, CT_STATUS, CT_CODE, CT_SIZE, CT_ENTRY, CT_SEED, CT_MAX, CT_STEPS, CT_INJ, CT_A, CT_B, CT_CALLS, CT_DEPTH, CT_NCPU, CT_SW, CT_SPLITS, CT_CELL, CT_CELLN, CT_REGS,
	CT_CPU = 32 /* entry, stack, arg per cpu */, CT_SCHED = 64 /* cpu, steps pairs */, CT_NSCHED = 60, CT_CODES = 48, CT_TOTAL = 512 };
enum { CC_NONE, CC_STEP, CC_CPUS };
enum { CS_OK = 1, CS_SP_ABOVE, CS_SP_FAR, CS_SP_ALIGN, CS_SP_RETURN, CS_REG, CS_LIMIT, CS_SP_CALL, CS_FRAME };
#endif
