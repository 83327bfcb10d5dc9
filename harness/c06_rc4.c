/* RC4: -DLEN key bytes (symbolic), NBYTES data bytes split at SPLIT places, in place or not */
#include "racrypt.h"
#include "rsx.h"
#ifndef NBYTES
#define NBYTES 6
#endif
void harness(void) {
  uint8_t key[LEN], in[NBYTES], out[NBYTES], ref[NBYTES], S[256]; struct RaRc4Ctx *ctx = NULL; int i, j = 0, n, k, inplace;
  rsx_sym(key, LEN, "key"); rsx_sym(in, NBYTES, "data");
  /* reference */
  for (i = 0; i < 256; i++) S[i] = i;
  for (i = 0; i < 256; i++) { uint8_t t; j = (j + S[i] + key[i % LEN]) & 255; t = S[i]; S[i] = S[j]; S[j] = t; }
  { int x = 0, y = 0; for (k = 0; k < NBYTES; k++) { uint8_t t; x = (x + 1) & 255; y = (y + S[x]) & 255; t = S[x]; S[x] = S[y]; S[y] = t; ref[k] = in[k] ^ S[(S[x] + S[y]) & 255]; } }
  rsx_assert(RaRc4Create(key, LEN, &ctx) == RA_ERR_SUCCESS && ctx, "create");
  int a = rsx_pick(0, NBYTES, "first"), b = rsx_pick(a, NBYTES, "second"); inplace = rsx_pick(0, 1, "inplace");
  int cut[4] = {0, a, b, NBYTES};
  for (i = 0; i < 3; i++) {
    int m = cut[i + 1] - cut[i]; uint8_t *p = malloc(m ? m : 1), *q = inplace ? p : malloc(m ? m : 1);
    memcpy(p, in + cut[i], m);
    n = (i & 1) ? RaRc4Decrypt(ctx, p, m, q) : RaRc4Encrypt(ctx, p, m, q);
    rsx_assert(n == m, "returns the number of bytes given");
    memcpy(out + cut[i], q, m); free(p); if (q != p) free(q);
  }
  rsx_observe(out, NBYTES, "out");
  rsx_eq(out, ref, NBYTES, "RC4 output is data xor keystream");
  RaRc4Destroy(ctx); rsx_assert(rsx_live() == 0, "no leak");
}
