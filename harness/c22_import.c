#include "racrypt.h"
#include "rsx.h"
/* the Montgomery context of a nonzero modulus is opaque here (C19, C25 cover it): creating it succeeds or fails; a zero modulus goes to the real function */
struct opaque { int tag; };
int __real_RaMontCreate(struct RaBigNumber *N, struct RaMontCtx **c);
void __real_RaMontDestroy(struct RaMontCtx *c);
#ifndef REAL
int rsx_override_RaMontCreate(struct RaBigNumber *N, struct RaMontCtx **c) {
  struct opaque *o;
  if (rsx_concrete(BnCmpUInt(N, 0) == 0)) return __real_RaMontCreate(N, c);
  if (rsx_pick(0, 1, "montfails")) return RA_ERR_OUT_OF_MEMORY;
  o = malloc(sizeof *o); o->tag = 77; *c = (struct RaMontCtx *)o; return RA_ERR_SUCCESS;
}
void rsx_override_RaMontDestroy(struct RaMontCtx *c) { if (c) { rsx_assert(((struct opaque *)c)->tag == 77, "the context that was created"); free(c); } }
#endif
static void import(int f, const uint8_t *d, int n, int valid) {
  struct RaRsaKeyPair *k = NULL; int e = f == 0 ? RaRsaCreateKeyPub(d, n, &k) : f == 1 ? RaRsaCreateKeyPriv(d, n, &k) : RaRsaCreateKeyFromByteArray(d, n, &k);
  if (e == RA_ERR_SUCCESS) { rsx_assert(k != NULL, "key"); rsx_assert(rsx_concrete(RaRsaKeyBitLength(k) >= 0), "bit length"); RaRsaDestroyKeyPair(k); }
  else rsx_assert(k == NULL, "no key on error");
  rsx_assert(!valid | (e == RA_ERR_SUCCESS) | (e == RA_ERR_OUT_OF_MEMORY), "a well-formed key is accepted");
  rsx_assert(rsx_live() == 0, "nothing leaked");
}
static uint8_t t[160]; static int n;
static void in(const void *p, int l) { memcpy(t + n, p, l); n += l; }
static const uint8_t alg[] = { 0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01, 0x05, 0x00 };
static const uint8_t priv[] = { 0x30, 0x25, 2, 1, 0, 2, 3, 0x00, 0xd6, 0x97, 2, 2, 1, 1, 2, 3, 0x00, 0x8f, 0x77, 2, 2, 0x00, 0xf1, 2, 2, 0x00, 0xe3, 2, 1, 0x11, 2, 1, 0x21, 2, 2, 0x7f, 0x31 };
static const uint8_t pub[] = { 0x30, 0x09, 2, 3, 0x00, 0xd6, 0x97, 2, 2, 1, 1 };
static void make(int f) {
  n = 0;
  if (f == 0) in(pub, sizeof pub);
  else if (f == 1) { in(priv, sizeof priv); t[1] = sizeof priv - 2; }
  else if (f == 2) { in((uint8_t[]){ 0x30, sizeof alg + sizeof pub + 3 }, 2); in(alg, sizeof alg); in((uint8_t[]){ 3, sizeof pub + 1, 0 }, 3); in(pub, sizeof pub); }
  else { in((uint8_t[]){ 0x30, 3 + sizeof alg + 2 + sizeof priv, 2, 1, 0 }, 5); in(alg, sizeof alg); in((uint8_t[]){ 4, sizeof priv }, 2); in(priv, sizeof priv); t[n - sizeof priv + 1] = sizeof priv - 2; }
}
void harness(void) {
  uint8_t *d; int f, i, cut;
#if defined ANY
  int L = rsx_pick(LO, HI, "length"); f = rsx_pick(0, 2, "function"); d = malloc(L ? L : 1); rsx_sym(d, L, "d");
  { int b = rsx_live(); struct RaRsaKeyPair *k = NULL; int e = f == 0 ? RaRsaCreateKeyPub(d, L, &k) : f == 1 ? RaRsaCreateKeyPriv(d, L, &k) : RaRsaCreateKeyFromByteArray(d, L, &k);
    if (e == RA_ERR_SUCCESS) { rsx_assert(k != NULL, "key"); rsx_assert(rsx_concrete(RaRsaKeyBitLength(k) >= 0), "bit length"); RaRsaDestroyKeyPair(k); } else rsx_assert(k == NULL, "no key on error");
    rsx_assert(rsx_live() == b, "nothing leaked"); }
  free(d);
#elif defined MUT   /* a valid encoding with SPAN neighbouring bytes replaced by anything */
  f = FORM; make(f); i = rsx_pick(PLO, n - SPAN < PHI ? n - SPAN : PHI, "position"); rsx_sym(t + i, SPAN, "bytes");
  { static uint8_t buf[160]; d = buf + 160 - n; memcpy(d, t, n); import(f > 2 ? 2 : f, d, n, 0); }
#elif defined CUT   /* cut off anywhere, with the outermost length adjusted or not */
  f = rsx_pick(0, 3, "form"); make(f); cut = rsx_pick(0, n, "cut"); if (cut >= 2 && rsx_pick(0, 1, "adjust")) t[1] = cut - 2;
  { static uint8_t buf[160]; d = buf + 160 - cut; memcpy(d, t, cut); import(f > 2 ? 2 : f, d, cut, cut == n); }
#elif defined OID   /* the algorithm identifier of any length, at the end of the data or not */
  int ol = rsx_pick(0, 12, "oidlen"), tail = rsx_pick(0, 1, "tail"), ver = rsx_pick(0, 1, "version"), p = 2; uint8_t x[64];
  if (ver) { x[p++] = 2; x[p++] = 1; x[p++] = 0; }
  x[p++] = 0x30; x[p++] = ol + 2; x[p++] = 6; x[p++] = ol; for (i = 0; i < ol; i++) x[p++] = i < 9 ? alg[4 + i] : 1; if (ol) { rsx_sym(x + p - 1, 1, "last"); }
  if (tail) { x[p++] = ver ? 4 : 3; x[p++] = sizeof pub + 1; x[p++] = 0; memcpy(x + p, pub, sizeof pub); p += sizeof pub; }
  x[0] = 0x30; x[1] = p - 2; { static uint8_t buf[160]; d = buf + 160 - p; memcpy(d, x, p); import(2, d, p, 0); }
#elif defined INTS   /* integers of any length and content, including none */
  int k, p = 2; uint8_t x[64]; static uint8_t buf[160]; f = rsx_pick(0, 1, "function");
  if (f) { x[p++] = 2; x[p++] = 1; x[p++] = 0; }
  int which = rsx_pick(0, f ? 7 : 1, "which");
  for (k = 0; k < (f ? 8 : 2); k++) { int l = k == which ? rsx_pick(0, MAXLEN, "len") : 1; x[p++] = 2; x[p++] = l; if (k == which) { if (l) rsx_sym(x + p, l, "int"); } else x[p] = 77; p += l; }
  x[0] = 0x30; x[1] = p - 2; d = buf + 160 - p; memcpy(d, x, p); import(f, d, p, 0);
#elif defined REAL   /* the real Montgomery context for plain moduli, odd, even, one and zero; the key is used after import */
  static const struct { int n; uint8_t b[20]; } M[] = { { 1, { 0 } }, { 1, { 1 } }, { 1, { 2 } }, { 1, { 3 } }, { 1, { 0x80 } }, { 1, { 0xff } }, { 9, { 1 } }, { 9, { 0, 0x80 } }, { 17, { 1 } }, { 16, { 0x40 } }, { 17, { 0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff } }, { 5, { 1, 0, 0, 0, 1 } }, { 5, { 0, 0x80, 0, 0, 0 } }, { 2, { 0, 0 } }, { 2, { 0xff, 0 } } };
  int m = rsx_pick(0, sizeof M / sizeof *M - 1, "modulus"), p = 2; uint8_t x[64]; static uint8_t buf[160]; struct RaRsaKeyPair *k = NULL;
  x[p++] = 2; x[p++] = M[m].n; memcpy(x + p, M[m].b, M[m].n); p += M[m].n; x[p++] = 2; x[p++] = 1; x[p++] = 3; x[0] = 0x30; x[1] = p - 2; d = buf + 160 - p; memcpy(d, x, p);
  int e = RaRsaCreateKeyPub(d, p, &k); rsx_assert((e == RA_ERR_SUCCESS) == (k != NULL), "key if and only if success");
  if (k) { uint8_t o[200]; int l = -1; rsx_assert(RaRsaKeyBitLength(k) >= 0, "bit length"); RaRsaPubKeyToByteArray(k, o, sizeof o, &l); RaRsaPrivKeyToByteArray(k, o, sizeof o, &l); RaRsaDestroyKeyPair(k); }
  rsx_assert(rsx_live() == 0, "nothing leaked");
#endif
  (void)cut; (void)i;
}
