/* Streaming: set IV, f bytes (in two calls), n bytes, enough to complete a block, then SetIV with a byte pending and a block. */
#include "ci.h"
#ifndef MLO
#define MLO 0
#define MHI 3
#endif
static cStream s;
static int step(C_CTX *c, int n, const char *name) {   /* feeds n fresh bytes and compares; the output has no byte too many */
  uint8_t *in = malloc(n ? n : 1), *keep = malloc(n ? n : 1), *ref = malloc(n + CB), *out; int w, got;
  rsx_sym(in, n, name); memcpy(keep, in, n);
  w = streamRef(&s, in, n, ref); out = malloc(w ? w : 1);
  got = cRun(c, s.dec, in, n, out);
  rsx_assert(got == w, "returns the bytes completed");
  rsx_eq(out, ref, w, "output is the mode's definition"); rsx_observe(out, w, name);
  rsx_eq(in, keep, n, "input is untouched");
  free(in); free(keep); free(ref); free(out); return w;
}
static void ivIs(C_CTX *c) { uint8_t *iv = malloc(CB); if (s.mode != RA_BLOCK_MODE_ECB) { CN(GetIV)(c, iv); rsx_eq(iv, s.iv, CB, "reading the IV gives the chaining value"); } free(iv); }
void harness(void) {
  C_CTX *c; int f, n; uint8_t *iv;
  cInputs(); s.mode = rsx_pick(MLO, MHI, "mode"); s.dec = rsx_pick(0, 1, "decrypt");
#ifdef FULL
  f = rsx_pick(0, CB - 1, "f"); n = rsx_pick(0, 2 * CB + 1, "n");
#else
  { static const int F[] = {0, 1, CB - 1}, N[] = {1, CB - 1, CB, CB + 1, 2 * CB}; f = F[rsx_pick(0, 2, "f")]; n = N[rsx_pick(0, 4, "n")]; }
#endif
  c = cNew(s.mode); memset(s.iv, 0, CB); ivIs(c);
  iv = malloc(CB); rsx_sym(iv, CB, "iv"); memcpy(s.iv, iv, CB); CN(SetIV)(c, iv); ivIs(c);
  step(c, f / 2, "part0"); step(c, f - f / 2, "part1"); step(c, n, "part2"); ivIs(c);
  step(c, s.np ? CB - s.np : CB, "part3"); ivIs(c);
  step(c, 1, "part4"); rsx_sym(iv, CB, "iv2"); memcpy(s.iv, iv, CB); s.np = 0; CN(SetIV)(c, iv); ivIs(c);
  step(c, CB, "part5"); ivIs(c);
  free(iv); CN(Destroy)(c); if (cRef) CN(Destroy)(cRef); cRef = NULL; rsx_assert(rsx_live() == 0, "no leak");
}
