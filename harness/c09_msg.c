/* Public life cycle: create (initial value and counter of the standard), update, final, destroy; the one-shot call and a
   context initialised in place give the same digest for every message of LO..HI bytes; the empty message against the standard.
   Together with c09_step (arbitrary state) and c12_chunk this covers whole messages by induction over the bytes. */
#include "dg.h"
void harness(void) {
  struct D_CTX *c = NULL, *d = malloc(sizeof *d); dState t; uint8_t *out = malloc(64), ref[DL], *data; int n = rsx_pick(LO, HI, "n");
  data = malloc(n ? n : 1); rsx_sym(data, n, "data");
  rsx_assert(dCreate(&c) == RA_ERR_SUCCESS && c, "create"); dIsFresh(c);
  dUpdate(c, data, n); dFinal(c, out); dDestroy(c);
  rsx_observe(out, DL, "digest");
  memcpy(ref, out, DL);
  dInit(d); dIsFresh(d); dUpdate(d, data, n); dFinal(d, out); rsx_eq(out, ref, DL, "context initialised in place"); free(d);
#if defined SHA256
  RaSha256(data, n, out); rsx_eq(out, ref, DL, "one-shot digest");
#elif defined SHA512
  RaSha512(data, n, out); rsx_eq(out, ref, DL, "one-shot digest");
#elif !defined ALG
  dOneShot(data, n, out); rsx_eq(out, ref, DL, "one-shot digest");
#endif
  if (n == 0) {
    memset(&t, 0, sizeof t); dIVSpec(&t.s); dSpecFinal(&t.s, t.prefix, 0, 0, 0, out);
    rsx_eq(out, ref, DL, "digest of the empty message equals the standard");
  }
  free(data); free(out); rsx_assert(rsx_live() == 0, "no leak");
}
