/* From an arbitrary state with r pending bytes: Update of n bytes, then Final, equals the standard's padding and compression. */
#include "dg.h"
#ifndef RLO
#define RLO 0
#define RHI (DB - 1)
#endif
#ifndef NLO
#define NLO 0
#define NHI 0
#endif
void harness(void) {
  struct D_CTX *c = malloc(sizeof *c); dState t; uint8_t *out = malloc(DL), ref[DL], *data; int r = rsx_pick(RLO, RHI, "pending_bytes"), n = rsx_pick(NLO, NHI, "n");
  dSymState(c, &t, r);
  data = malloc(n ? n : 1); rsx_sym(data, n, "data");
  dSpecUpdate(&t, r, data, n);
  dUpdate(c, data, n);
  dSameCount(c, &t);
  dSpecFinal(&t.s, t.prefix, (r + n) % DB, t.hh, t.total, ref);
  dFinal(c, out);
  rsx_observe(out, DL, "digest");
  rsx_eq(out, ref, DL, "update and final equal the standard");
}
