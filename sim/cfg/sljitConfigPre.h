/* Seams for the simulator: sljit's own configuration mechanism
   (SLJIT_HAVE_CONFIG_PRE) routes heap and instruction-cache operations
   into the simulated world. */
#ifndef SIM_SLJIT_CONFIG_PRE_H
#define SIM_SLJIT_CONFIG_PRE_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void *sim_malloc(size_t size, void *allocator_data);
void sim_free(void *ptr, void *allocator_data);
void sim_cache_flush(void *from, void *to);
void sim_assert_fail(const char *file, int line) __attribute__((noreturn));
#ifdef __cplusplus
}
#endif
#define SLJIT_MALLOC(size, allocator_data) sim_malloc((size), (void*)(allocator_data))
#define SLJIT_FREE(ptr, allocator_data) sim_free((void*)(ptr), (void*)(allocator_data))
#define SLJIT_ASSERT(x) do { if (__builtin_expect(!(x), 0)) sim_assert_fail(__FILE__, __LINE__); } while (0)
#define SLJIT_UNREACHABLE() sim_assert_fail(__FILE__, __LINE__)
#define SLJIT_HALT_PROCESS() sim_assert_fail(__FILE__, __LINE__)
#ifdef SIM_THR
#ifdef __cplusplus
extern "C" {
#endif
void *sim_memcpy(void *d, const void *s, size_t n);
void *sim_memmove(void *d, const void *s, size_t n);
void *sim_memset(void *d, int v, size_t n);
#ifdef __cplusplus
}
#endif
#define SLJIT_MEMCPY(d, s, n) sim_memcpy((d), (s), (n))
#define SLJIT_MEMMOVE(d, s, n) sim_memmove((d), (s), (n))
#define SLJIT_ZEROMEM(d, n) sim_memset((d), 0, (n))
#endif
#define SLJIT_CACHE_FLUSH(from, to) sim_cache_flush((void*)(from), (void*)(to))
#endif
