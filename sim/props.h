#ifndef SIM_PROPS_H
#define SIM_PROPS_H
#include "util.h"
#include <errno.h>
#include <sys/types.h>
void *sim_map_dual(void *at, size_t len, unsigned char **writable);
int defined_arm_v6(void);
uint64_t place_rand(Rng *r);
void sim_protect(void *p, size_t len, int prot);
void *sim_malloc(size_t size, void *cookie);
void sim_free(void *q, void *cookie);
#endif
