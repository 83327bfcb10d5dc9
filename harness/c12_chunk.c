/* From an arbitrary state with r pending bytes: one Update of n bytes and any division of it give the same digest. */
#include "dg.h"
void harness(void) {
  struct D_CTX *c = malloc(sizeof *c), *e = malloc(sizeof *e); dState t; uint8_t *out = malloc(DL), *out2 = malloc(DL), *data; int i, k, r = rsx_pick(RLO, RHI, "pending_bytes"), n = rsx_pick(NLO, NHI, "n");
  dSymState(c, &t, r); memcpy(e, c, sizeof *e);
  data = malloc(n ? n : 1); rsx_sym(data, n, "data");
  dUpdate(c, data, n);
#ifdef SPLIT
  k = rsx_pick(0, n, "first_part"); dUpdate(e, data, k); dUpdate(e, data + k, n - k);
#else
  (void)k; for (i = 0; i < n; i++) { uint8_t *one = malloc(1); *one = data[i]; dUpdate(e, one, 1); free(one); }
#endif
#ifndef MD2
  rsx_assert(c->totalLen_l == e->totalLen_l && c->totalLen_h == e->totalLen_h, "byte counter independent of the division");
#else
  rsx_assert(c->totalLen == e->totalLen, "byte counter independent of the division");
#endif
  dFinal(c, out); dFinal(e, out2);
  rsx_observe(out, DL, "digest");
  rsx_eq(out, out2, DL, "digest independent of the division into updates");
}
