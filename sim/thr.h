#ifndef SIM_THR_H
#define SIM_THR_H
#include "core.h"
/* Simulated threads: coroutines that change places only at the accesses, lock operations, heap and system calls of the
   library, which is compiled with -fsanitize=thread against the runtime in thr.c (never against libtsan). */
#define THR_MAX 4
extern int thr_active, thr_cur;       /* threads are running / the running one (THR_MAX: the main program) */
extern uint64_t thr_accesses, thr_switches, thr_syncs;
void thr_init(void);                  /* once: remember the library's static data */
void thr_cold(void);                  /* put the library's static data back to its state at program start */
void thr_run(int n, void (*fn)(int), const Plan *p);
void thr_locks_free(const char *where); /* nobody holds a lock */
#endif
