/* Final calls. -DENC: padding of the final encrypt call and the way back; -DDEC: arbitrary recovered plaintext. */
#include "ci.h"
#ifndef MLO
#define MLO 0
#define MHI 3
#endif
static void noPending(C_CTX *c, cStream *s) {   /* a whole block comes back at once, chained on */
  uint8_t in[CB], *out = malloc(CB), ref[CB]; rsx_sym(in, CB, "after"); s->np = 0;
  rsx_assert(streamRef(s, in, CB, ref) == CB && cRun(c, s->dec, in, CB, out) == CB, "nothing is pending after a final call");
  rsx_eq(out, ref, CB, "context goes on after a final call"); free(out);
}
void harness(void) {
  C_CTX *c; int f, n, w0, w1, i, pad, got; cStream s, t; uint8_t iv[CB], *ct, *pt;
  cInputs(); memset(&s, 0, sizeof s); s.mode = rsx_pick(MLO, MHI, "mode"); pad = rsx_pick(0, 2, "padding");
#ifdef FULL
  f = rsx_pick(0, CB - 1, "f"); n = rsx_pick(0, 2 * CB + 1, "n");
#else
  { static const int F[] = {0, 1, CB - 1}, N[] = {0, 1, CB - 1, CB, 2 * CB + 1}; f = F[rsx_pick(0, 2, "f")]; n = N[rsx_pick(0, 4, "n")]; }
#endif
  rsx_sym(iv, CB, "iv"); memcpy(s.iv, iv, CB); t = s;
  c = cNew(s.mode); CN(SetIV)(c, iv);
#ifdef ENC
  {
    int total = f + n, padLen = pad == RA_BLOCK_PADDING_PKCS7 ? CB - total % CB : pad == RA_BLOCK_PADDING_ZERO ? (CB - total % CB) % CB : 0, full = pad == RA_BLOCK_PADDING_NONE ? total / CB * CB : total + padLen;
    uint8_t *m = malloc(total + CB), *in = malloc(n ? n : 1), *ref = malloc(full + CB), *back;
    rsx_sym(m, total, "message"); for (i = 0; i < padLen; i++) m[total + i] = pad == RA_BLOCK_PADDING_PKCS7 ? padLen : 0;
    w0 = streamRef(&s, m, full, ref);
    rsx_assert(CN(Encrypt)(c, m, f, NULL) == 0, "an incomplete block is kept");
    memcpy(in, m + f, n); ct = malloc(full ? full : 1);
    got = CN(EncryptFinal)(c, in, n, ct, pad);
    rsx_assert(got == full, "final encrypt returns the bytes written"); rsx_eq(ct, ref, full, "final encrypt appends exactly the padding"); rsx_observe(ct, full, "ct");
    rsx_eq(in, m + f, n, "input is untouched");
    noPending(c, &s); CN(Destroy)(c);
    c = cNew(t.mode); CN(SetIV)(c, iv); back = malloc(full ? full : 1);
    got = CN(DecryptFinal)(c, ct, full, back, pad);
    rsx_assert(got == (pad == RA_BLOCK_PADDING_PKCS7 ? total : full), "final decrypt returns the length"); rsx_eq(back, m, pad == RA_BLOCK_PADDING_PKCS7 ? total : full, "final decrypt gives the message back");
    free(m); free(in); free(ref); free(ct); free(back);
  }
#else
  {
    int total = f + n, full = total / CB * CB, want = full, bad = 0, l;
    uint8_t *m = malloc(total ? total : 1), *in = malloc(n ? n : 1), *ref = malloc(full + CB);
    rsx_sym(m, total, "ct"); s.dec = 1; w0 = streamRef(&s, m, full, ref);
    rsx_assert(CN(Decrypt)(c, m, f, NULL) == 0, "an incomplete block is kept");
    memcpy(in, m + f, n); pt = malloc(full ? full : 1);
    got = CN(DecryptFinal)(c, in, n, pt, pad);
    rsx_assert(got >= 0 && got <= full, "length within the recovered data");
    rsx_eq(pt, ref, got, "recovered plaintext");
    if (pad != RA_BLOCK_PADDING_PKCS7) rsx_assert(got == full, "nothing is stripped");
    else if (full) {
      l = ref[full - 1];
      for (i = 0; i < CB; i++) bad |= (i < l) & (ref[full - 1 - i] != l);
      rsx_assert(got == ((l == 0) | (l > CB) | bad ? full : full - l), "well-formed padding is stripped, malformed is not");
    } else rsx_assert(got == 0, "no block, no output");
    noPending(c, &s);
    free(m); free(in); free(ref); free(pt);
  }
#endif
  CN(Destroy)(c); if (cRef) CN(Destroy)(cRef); cRef = NULL; rsx_assert(rsx_live() == 0, "no leak");
}
