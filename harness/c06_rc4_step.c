/* RC4 from an arbitrary point of an arbitrary keystream: the state after any history is some permutation with indices.
   Two calls of m and NBYTES-m bytes equal NBYTES generator steps, from every state (S any bytes, x and y any). */
#include "racrypt.h"
#include "rsx.h"
#ifndef NBYTES
#define NBYTES 2
#endif
void harness(void) {
  struct RaRc4Ctx ctx; uint8_t S[256], in[NBYTES], out[NBYTES], ref[NBYTES]; uint8_t x, y; int k, n, m;
  rsx_sym(S, 256, "S"); rsx_sym(in, NBYTES, "data"); x = rsx_pick(XLO, XHI, "x"); rsx_sym(&y, 1, "y");
  memset(&ctx, 0, sizeof ctx); memcpy(ctx.S, S, 256); ctx.x = x; ctx.y = y;
  for (k = 0; k < NBYTES; k++) { uint8_t t; x = x + 1; y = y + S[x]; t = S[x]; S[x] = S[y]; S[y] = t; ref[k] = in[k] ^ S[(uint8_t)(S[x] + S[y])]; }
  m = rsx_pick(0, NBYTES, "split");
  n = RaRc4Encrypt(&ctx, in, m, out); rsx_assert(n == m, "returns the number of bytes given");
  n = RaRc4Decrypt(&ctx, in + m, NBYTES - m, out + m); rsx_assert(n == NBYTES - m, "returns the number of bytes given");
  rsx_observe(out, NBYTES, "out");
  rsx_eq(out, ref, NBYTES, "RC4 generator steps from an arbitrary state");
}
