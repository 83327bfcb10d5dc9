/* Harness interface of the symbolic executor; lib/rsx_native.c gives the same calls for native replay. */
#ifndef RSX_H
#define RSX_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
void rsx_sym(void *p, size_t n, const char *name);                 /* n arbitrary bytes (1, 2, 4, 8: one variable) */
uint64_t rsx_pick(uint64_t lo, uint64_t hi, const char *name);     /* every value of the range, one path each */
void rsx_assume(int c);
void rsx_assert(int c, const char *msg);
void rsx_eq(const void *a, const void *b, size_t n, const char *msg);
int rsx_live(void);                                                /* heap blocks alive */
void rsx_observe(const void *p, size_t n, const char *name);       /* compared between engine and native run */
void rsx_malloc_may_fail(int n);                                   /* from now on up to n allocations fail, any of them */
uint64_t rsx_concrete(uint64_t v);                                 /* one path per value */
int rsx_is_symbolic(uint64_t v);
int rsx_engine(void);
void rsx_mark(const char *label);
void rsx_prune(void);
void rsx_print(const char *s, uint64_t v);
static inline uint64_t rsx_u64(const char *n) { uint64_t v; rsx_sym(&v, 8, n); return v; }
static inline uint32_t rsx_u32(const char *n) { uint32_t v; rsx_sym(&v, 4, n); return v; }
static inline uint8_t rsx_u8(const char *n) { uint8_t v; rsx_sym(&v, 1, n); return v; }
#endif
