/* One name per block cipher: C_CTX, cCreate, cEncrypt, ... ; CB block size.  -DTOY replaces the block functions (public
   context fields) by a cheap bijection with symbolic parameters, so that everything around them is executed as it is. */
#ifndef CI_H
#define CI_H
#include "racrypt.h"
#include "rsx.h"
#if defined AES
#define CN(x) RaAes##x
#define CB 16
#define CKEY 16
#define C_CREATE(k, m, p) RaAesCreate(k, RA_AES_128, m, p)
#elif defined ARIA
#define CN(x) RaAria##x
#define CB 16
#define CKEY 16
#define C_CREATE(k, m, p) RaAriaCreate(k, RA_ARIA_128, m, p)
#elif defined SEED
#define CN(x) RaSeed##x
#define CB 16
#define CKEY 16
#define C_CREATE(k, m, p) RaSeedCreate(k, m, p)
#elif defined DES
#define CN(x) RaDes##x
#define CB 8
#define CKEY 8
#define C_CREATE(k, m, p) RaDesCreate(k, RA_DES, m, p)
#else
#define CN(x) RaBlowfish##x
#define CB 8
#define CKEY 4
#define C_CREATE(k, m, p) RaBlowfishCreate(k, 4, m, p)
#endif
typedef struct CN(Ctx) C_CTX;
static uint8_t toyK[16];
static void toyEnc(struct RaBlockCipher *c, const uint8_t *in, uint8_t *out) { uint8_t t[CB]; int i; for (i = 0; i < CB; i++) { uint8_t v = in[i] + toyK[i]; t[(i + 3) % CB] = (uint8_t)(v << 3 | v >> 5); } for (i = 0; i < CB; i++) out[i] = t[i]; }
static void toyDec(struct RaBlockCipher *c, const uint8_t *in, uint8_t *out) { uint8_t t[CB]; int i; for (i = 0; i < CB; i++) { uint8_t v = in[(i + 3) % CB]; v = v >> 3 | v << 5; t[i] = v - toyK[i]; } for (i = 0; i < CB; i++) out[i] = t[i]; }
static uint8_t cKey[CKEY];
static C_CTX *cNew(enum RaBlockCipherMode m) {
  C_CTX *c = NULL; int e = C_CREATE(cKey, m, &c); rsx_assert(e == RA_ERR_SUCCESS && c, "create");
  rsx_assert(c->blockCipher.blockSize == CB, "block size");
#ifdef TOY
  c->blockCipher.encryptBlock = toyEnc; c->blockCipher.decryptBlock = toyDec;
#endif
  return c;
}
static void cInputs(void) {
#ifdef TOY
  rsx_sym(toyK, 16, "toykey");
#elif !defined BF
  rsx_sym(cKey, CKEY, "key");
#endif
}
/* one block through the cipher alone */
static C_CTX *cRef;
static void refE(const uint8_t *in, uint8_t *out) {
#ifdef TOY
  toyEnc(NULL, in, out);
#else
  if (!cRef) cRef = cNew(RA_BLOCK_MODE_ECB); rsx_assert(CN(Encrypt)(cRef, in, CB, out) == CB, "one block");
#endif
}
static void refD(const uint8_t *in, uint8_t *out) {
#ifdef TOY
  toyDec(NULL, in, out);
#else
  if (!cRef) cRef = cNew(RA_BLOCK_MODE_ECB); rsx_assert(CN(Decrypt)(cRef, in, CB, out) == CB, "one block");
#endif
}
/* the modes by definition; iv is the chaining value */
static void modeBlock(int mode, int dec, uint8_t *iv, const uint8_t *in, uint8_t *out) {
  uint8_t t[CB]; int i;
  if (mode == RA_BLOCK_MODE_ECB) { if (dec) refD(in, out); else refE(in, out); }
  else if (mode == RA_BLOCK_MODE_CBC && !dec) { for (i = 0; i < CB; i++) t[i] = in[i] ^ iv[i]; refE(t, out); memcpy(iv, out, CB); }
  else if (mode == RA_BLOCK_MODE_CBC) { refD(in, t); for (i = 0; i < CB; i++) out[i] = t[i] ^ iv[i]; memcpy(iv, in, CB); }
  else { refE(iv, t); for (i = 0; i < CB; i++) out[i] = in[i] ^ t[i]; memcpy(iv, mode == RA_BLOCK_MODE_OFB ? t : dec ? in : out, CB); }
}
/* n bytes of a stream: pending bytes in pend/np; returns the bytes produced */
typedef struct { int mode, dec, np; uint8_t iv[CB], pend[CB]; } cStream;
static int streamRef(cStream *s, const uint8_t *in, int n, uint8_t *out) {
  int i, w = 0; for (i = 0; i < n; i++) { s->pend[s->np++] = in[i]; if (s->np == CB) { modeBlock(s->mode, s->dec, s->iv, s->pend, out + w); w += CB; s->np = 0; } }
  return w;
}
static int cRun(C_CTX *c, int dec, const uint8_t *in, int n, uint8_t *out) { return dec ? CN(Decrypt)(c, in, n, out) : CN(Encrypt)(c, in, n, out); }
#endif
