/* Native side of the harness interface: inputs come from the file named by RSX_INPUT (one "name hex" line each). */
#define _GNU_SOURCE
#include "rsx.h"
#include <stdio.h>
#include <malloc.h>
static FILE *in; static int live, mayFail, mallocNo, ready;
extern void harness(void);
static void fail(const char *k, const char *m) { printf("RSX-VIOLATION %s %s\n", k, m); fflush(stdout); _Exit(42); }
static int nextHex(unsigned char *p, size_t n) {
  char name[512]; char *line = NULL; size_t cap = 0; ssize_t l;
  memset(p, 0, n);
  if (!in || (l = getline(&line, &cap, in)) <= 0) { fail("input", "ran out of inputs"); }
  char *sp = strrchr(line, ' '); size_t i; (void)name;
  if (!sp) fail("input", "bad input line");
  sp++;
  for (i = 0; i < n; i++) { unsigned v; if (sscanf(sp + 2 * i, "%2x", &v) != 1) break; p[i] = v; }
  free(line);
  return i == n;
}
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void __real_free(void *); void *__real_realloc(void *, size_t);
#define MAXB 100000
static void *blk[MAXB]; static size_t blkSize[MAXB]; static int nblk;
static int inHarness;
static void reg(void *p, size_t n) { if (nblk < MAXB) { blk[nblk] = p; blkSize[nblk++] = n; } live++; }
static int allocFails(void) {
  if (mayFail <= 0) return 0;
  unsigned char c = 0; inHarness = 0; nextHex(&c, 1); inHarness = 1; mallocNo++;
  if (c == 1) { mayFail--; return 1; }
  return 0;
}
void *__wrap_malloc(size_t n) {
  if (!inHarness) return __real_malloc(n);
  if (allocFails() || n > (1u << 28)) return NULL;
  void *p = __real_malloc(n); const char *fill = getenv("RSX_FILL"); if (p) { memset(p, fill ? atoi(fill) : 0xa5, n); reg(p, n); } return p;
}
void *__wrap_calloc(size_t a, size_t b) { if (!inHarness) return __real_calloc(a, b); if (allocFails()) return NULL; void *p = __real_calloc(a, b); if (p) reg(p, a * b); return p; }
__attribute__((weak)) void rsx_free_hook(void *p, size_t n);
void __wrap_free(void *p) {
  int i;
  if (!inHarness || !p) { __real_free(p); return; }
  for (i = 0; i < nblk; i++) if (blk[i] == p) break;
  if (i == nblk) { __real_free(p); fail("memory", "free of an unknown block"); }
  if (rsx_free_hook) rsx_free_hook(p, blkSize[i]);
  blk[i] = blk[nblk - 1]; blkSize[i] = blkSize[nblk - 1]; nblk--; live--;
  __real_free(p);
}
void *__wrap_realloc(void *p, size_t n) {
  if (!inHarness) return __real_realloc(p, n);
  void *q = __wrap_malloc(n); int i;
  if (q && p) { for (i = 0; i < nblk; i++) if (blk[i] == p) break; memcpy(q, p, i < nblk && blkSize[i] < n ? blkSize[i] : n); __wrap_free(p); }
  return q;
}
void rsx_sym(void *p, size_t n, const char *name) { inHarness = 0; nextHex(p, n); inHarness = 1; }
uint64_t rsx_pick(uint64_t lo, uint64_t hi, const char *name) { uint64_t v = 0; inHarness = 0; nextHex((unsigned char *)&v, 8); inHarness = 1; return v; }
void rsx_assume(int c) { if (!c) { printf("RSX-ASSUME-FALSE\n"); fflush(stdout); _Exit(43); } }
void rsx_assert(int c, const char *msg) { if (!c) fail("assert", msg); }
void rsx_eq(const void *a, const void *b, size_t n, const char *msg) { if (memcmp(a, b, n)) fail("assert", msg); }
int rsx_live(void) { return live; }
void rsx_observe(const void *p, size_t n, const char *name) { const unsigned char *q = p; printf("OBS %s ", name); while (n--) printf("%02x", *q++); printf("\n"); }
void rsx_malloc_may_fail(int n) { mayFail = n; }
uint64_t rsx_concrete(uint64_t v) { return v; }
int rsx_is_symbolic(uint64_t v) { return 0; }
int rsx_engine(void) { return 0; }
void rsx_mark(const char *l) {}
void rsx_prune(void) { rsx_assume(0); }
void rsx_print(const char *s, uint64_t v) {}
int main(int argc, char **argv) {
  const char *f = getenv("RSX_INPUT"); if (argc > 1) f = argv[1];
  setvbuf(stdout, NULL, _IOFBF, 1 << 16);
  if (f) in = fopen(f, "r");
  inHarness = 1; harness(); inHarness = 0;
  printf("RSX-OK\n"); fflush(stdout); _Exit(0);
}
