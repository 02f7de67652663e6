#ifndef SIM_UTIL_H
#define SIM_UTIL_H
#include "prog.h"
#if defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2
#define CODE_PTR(c) ((unsigned char *)((uintptr_t)(c) & ~(uintptr_t)1))
#else
#define CODE_PTR(c) ((unsigned char *)(c))
#endif
#if defined SLJIT_PROT_EXECUTABLE_ALLOCATOR && SLJIT_PROT_EXECUTABLE_ALLOCATOR
#define ALLOC_PROT 1
#else
#define ALLOC_PROT 0
#endif
#if defined SLJIT_WX_EXECUTABLE_ALLOCATOR && SLJIT_WX_EXECUTABLE_ALLOCATOR
#define ALLOC_WX 1
#else
#define ALLOC_WX 0
#endif
#define ALLOC_PLAIN (!ALLOC_PROT && !ALLOC_WX)
#if ALLOC_PROT
sljit_sw sljit_exec_offset(void *code);
#define EXOFF(p) sljit_exec_offset(p)
#else
#define EXOFF(p) 0
#endif

typedef struct { Code code; uint64_t hash; unsigned char *bytes; size_t nbytes; long mallocs, mmaps; } Twin;

/* one compilation; returns 1 with *out filled, 0 after a correctly reported failure */
typedef struct {
	void (*tick)(Em *);
	void *user;
	int gopt; void *gdata;
	FILE *verbose;
	int keep;                 /* keep the compiler (returned in comp) */
	struct sljit_compiler *comp;
	int no_call, no_ro;
	int fail_ok;              /* a failure needs a fired fault or this */
	int error;                /* compiler error after a failure */
	int stage;                /* 0 create, 1 emit, 2 generate */
	Em *em;
} BuildOpt;
int build(const Plan *p, Code *out, BuildOpt *o);
void twin_make(const Plan *p, Twin *t, BuildOpt *o);  /* fault free, compiled at the canonical place, freed afterwards */
void twin_free(Twin *t);
void world_clean(const char *where);                   /* all code freed: everything must go back; then canonical placement again */
void code_check(const Code *c, const char *where);     /* addresses inside the code */
void code_same(const Code *a, const Code *b, const char *where); /* relative layout equal */
int sim_page_of(const Plan *p);
#endif
