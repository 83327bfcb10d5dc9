#include "racrypt.h"
#include "rsx.h"
#if defined STREAM
/* the same seed gives the same stream, however it is drawn */
static struct RaRandom *mk(enum RaRandomAlgorithm alg, const uint8_t *seed, int n) {
  struct RaRandom *r = NULL; uint8_t *s = malloc(n ? n : 1); int i; memcpy(s, seed, n);
  rsx_assert(RaRandomCreate(alg, s, n, &r) == RA_ERR_SUCCESS && r != NULL, "create");
  rsx_eq(s, seed, n, "seed untouched"); for (i = 0; i < n; i++) s[i] = 0x5a; free(s); return r;
}
static void draw(struct RaRandom *r, uint8_t *out, int n) {
  uint8_t *b = malloc(n + 2); memset(b, 0x3c, n + 2); RaRandomBytes(r, n, b + 1);
  rsx_assert(b[0] == 0x3c, "byte before the output"); rsx_assert(b[n + 1] == 0x3c, "byte after the output"); memcpy(out, b + 1, n); free(b);
}
void harness(void) {
  uint8_t seed[80], other[8], a[3 * LEN + 4], b[3 * LEN + 4]; int i, n = rsx_pick(0, 4, "seedlength"), tot, n1, n2;
  static const int SL[5] = { 0, 1, 20, 55, 80 }; n = SL[n];
  rsx_sym(seed, sizeof seed, "seed"); rsx_sym(other, sizeof other, "other");
#ifdef LONG
  tot = 3 * LEN + 3;
#else
  tot = 2 * LEN + 1;
#endif
  struct RaRandom *x = mk(ALG, seed, n), *z = mk(ALG, other, 8), *y = mk(ALG, seed, n);
  draw(x, a, tot);
  switch (rsx_pick(0, 6, "split")) {
  case 0: n1 = 1; n2 = 1; break;
  case 1: n1 = LEN - 1; n2 = 1; break;
  case 2: n1 = LEN - 1; n2 = 2; break;
  case 3: n1 = LEN; n2 = LEN; break;
  case 4: n1 = LEN + 1; n2 = 0; break;
  case 5: n1 = 0; n2 = 2 * LEN; break;
  default: n1 = 5; n2 = LEN; break;
  }
  draw(y, b, n1); draw(z, (uint8_t[9]){0}, 7); draw(y, b + n1, n2); draw(y, b + n1 + n2, tot - n1 - n2);
  rsx_eq(a, b, tot, "same stream for the same seed");
  rsx_observe(a, tot, "stream");
  RaRandomDestroy(x); RaRandomDestroy(y); RaRandomDestroy(z); RaRandomDestroy(NULL);
  rsx_assert(rsx_live() == 0, "nothing leaked");
}
#else
/* reals and bounded integers from every generator output: the buffered bytes are free */
void harness(void) {
  uint8_t seed[1] = { 7 }, z[4]; struct RaRandom *r = NULL; int k;
  rsx_assert(RaRandomCreate(ALG, seed, 1, &r) == RA_ERR_SUCCESS, "create");
  RaRandomBytes(r, 4, z); rsx_sym(r->buffer, 8, "out"); r->buffer_offset = 0;
  /* at most one draw is rejected */
  rsx_assume(!(r->buffer[4] == 255 & r->buffer[5] == 255 & r->buffer[6] == 255 & r->buffer[7] == 255)); rsx_assume((r->buffer[4] | r->buffer[5] | r->buffer[6] | r->buffer[7]) != 0);
#if defined REAL
  double d = RaRandom(r); rsx_assert((d > 0.0) & (d < 1.0), "strictly between 0 and 1"); rsx_observe(&d, 8, "d");
#else
  static const uint32_t R[] = { 1, 2, 3, 10, 256, 1000003, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu, 0 };
  k = rsx_pick(KLO, KHI, "range"); uint32_t lo = R[k] ? rsx_u32("min") : 0, hi = lo + (R[k] - 1), v;
  rsx_assume(hi >= lo); v = RaRandomInt(r, lo, hi);
  rsx_assert((v >= lo) & (v <= hi), "within the range"); rsx_observe(&v, 4, "v");
#endif
  RaRandomDestroy(r); rsx_assert(rsx_live() == 0, "nothing leaked");
}
#endif
