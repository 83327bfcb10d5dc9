#include "racrypt.h"
#include "asn1.h"
#include "rsx.h"
/* every choice of up to FAILS failing allocations inside one call */
typedef struct RaBigNumber BN;
static BN *num(const char *hex, int cap) { BN *b = BnNewW(cap); uint8_t d[64]; int n = strlen(hex) / 2, i, j; for (i = 0; i < n; i++) { d[i] = 0; for (j = 0; j < 2; j++) { char c = hex[2 * i + j]; d[i] = d[i] * 16 + (c <= '9' ? c - '0' : c - 'a' + 10); } } rsx_assert(BnSetUByteArray(b, d, n) == RA_ERR_SUCCESS, "number"); return b; }
static int is(BN *b, const char *hex) { BN *t = num(hex, 8); int r = BnCmp(b, t) == 0; BnFree(t); return r; }
static int base, failed;
static void on(void) { base = rsx_live(); rsx_malloc_may_fail(FAILS); }
static void off(void) { rsx_malloc_may_fail(0); }
#ifdef RANDOM_FIXED   /* the library's own seeding reads the system; a fixed seed takes its place */
int __real_RaRandomCreate(enum RaRandomAlgorithm a, uint8_t *seed, int n, struct RaRandom **p);
int rsx_override_RaRandomCreate(enum RaRandomAlgorithm a, uint8_t *seed, int n, struct RaRandom **p) {
  static uint8_t fixed[4] = { 1, 2, 3, 4 }; return __real_RaRandomCreate(a, seed ? seed : fixed, seed ? n : 4, p);
}
#endif
#define CREATE(X, call) do { struct Ra##X##Ctx *c = NULL; on(); e = call; off(); if (e == RA_ERR_SUCCESS) { rsx_assert(c != NULL, "context"); Ra##X##Destroy(c); } else rsx_assert(c == NULL, "no context on error"); } while (0)
static const uint8_t priv[] = { 0x30, 0x3e, 2, 1, 0, 2, 9, 0x00, 0xd6, 0x72, 0x18, 0xc2, 0xf2, 0xa5, 0xa3, 0x97, 2, 3, 1, 0, 1, 2, 9, 0x00, 0x8f, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 2, 5, 0x00, 0xf1, 0x23, 0x45, 0x67, 2, 5, 0x00, 0xe3, 0x21, 0x09, 0x87, 2, 4, 0x11, 0x22, 0x33, 0x44, 2, 4, 0x21, 0x22, 0x33, 0x44, 2, 4, 0x31, 0x22, 0x33, 0x44 };
static const uint8_t pub[] = { 0x30, 0x10, 2, 9, 0x00, 0xd6, 0x72, 0x18, 0xc2, 0xf2, 0xa5, 0xa3, 0x97, 2, 3, 1, 0, 1 };
#ifdef VERIFY   /* p = 61, q = 53, e = 17 */
static const uint8_t small[] = { 0x30, 0x1d, 2, 1, 0, 2, 2, 0x0c, 0xa1, 2, 1, 17, 2, 2, 0x0a, 0xc1, 2, 1, 61, 2, 1, 53, 2, 1, 53, 2, 1, 49, 2, 1, 38 };
#endif
static struct RaRsaKeyPair *key(void) { struct RaRsaKeyPair *k = NULL; rsx_assert(RaRsaCreateKeyPriv(priv, sizeof priv, &k) == RA_ERR_SUCCESS && k, "key"); return k; }
void harness(void) {
  int e = -1, i; uint8_t kb[32]; rsx_sym(kb, 32, "key");
#if defined CTX
  switch (rsx_pick(0, 17, "what")) {
  case 0: CREATE(Aes, RaAesCreate(kb, RA_AES_256, RA_BLOCK_MODE_CBC, &c)); break;
  case 1: CREATE(Des, RaDesCreate(kb, RA_DES_EDE3, RA_BLOCK_MODE_CBC, &c)); break;
  case 2: CREATE(Seed, RaSeedCreate(kb, RA_BLOCK_MODE_CFB, &c)); break;
  case 3: CREATE(Aria, RaAriaCreate(kb, RA_ARIA_192, RA_BLOCK_MODE_OFB, &c)); break;
  case 4: for (i = 0; i < 32; i++) kb[i] = i; CREATE(Blowfish, RaBlowfishCreate(kb, 8, RA_BLOCK_MODE_ECB, &c)); break;
  case 5: for (i = 0; i < 32; i++) kb[i] = i; CREATE(Rc4, RaRc4Create(kb, 8, &c)); break;
  case 6: CREATE(Sha1, RaSha1Create(&c)); break; case 7: CREATE(Sha2, RaSha2Create(RA_DGST_SHA2_256, &c)); break; case 8: CREATE(Sha2, RaSha2Create(RA_DGST_SHA2_512, &c)); break;
  case 9: CREATE(Md5, RaMd5Create(&c)); break; case 10: CREATE(Md4, RaMd4Create(&c)); break; case 11: CREATE(Md2, RaMd2Create(&c)); break; case 12: CREATE(Has160, RaHas160Create(&c)); break;
  case 17: { BN *b; on(); b = rsx_pick(0, 1, "bits") ? BnNew(100) : BnNewW(3); off(); if (b) BnFree(b); } break;
  default: { struct RaRandom *r = NULL; i = rsx_pick(0, 3, "algorithm"); on(); e = RaRandomCreate(i == 0 ? RA_RAND_SHA160 : i == 1 ? RA_RAND_SHA256 : i == 2 ? RA_RAND_SHA512 : RA_RAND_MD5, kb, 16, &r); off(); if (e == RA_ERR_SUCCESS) { rsx_assert(r != NULL, "generator"); RaRandomDestroy(r); } else rsx_assert(r == NULL, "no generator on error"); }
  }
  rsx_assert(rsx_live() == 0, "nothing leaked");
#elif defined BN1
  BN *a = num("0123456789abcdef00112233445566778899aabb", 6), *b = num("f0e1d2c3b4a5968778695a4b", 6), *q = BnNewW(8), *r = BnNewW(8), *s = BnNewW(8); uint8_t buf[64]; BN *c;
  switch (rsx_pick(0, 6, "what")) {
  case 0: on(); e = BnDiv(q, r, a, b); off(); if (e == RA_ERR_SUCCESS) { BnMul(s, q, b); BnAdd(s, s, r); rsx_assert(BnCmp(s, a) == 0, "quotient and remainder"); } break;
  case 1: on(); e = BnMod(r, a, b); off(); if (e == RA_ERR_SUCCESS) { BnDiv(q, s, a, b); rsx_assert(BnCmp(s, r) == 0, "remainder"); } break;
  case 2: on(); c = BnClone(a); off(); if (c) { rsx_assert(BnCmp(a, c) == 0, "clone"); BnFree(c); } break;
  case 3: a->sign = 1; on(); e = BnToByteArray(a, buf, sizeof buf); off(); if (e != 0) rsx_assert(e == 20 && buf[0] == 0xfe && buf[19] == 0x45, "bytes"); a->sign = 0; break;
  case 4: on(); e = GetGCD(r, a, b); off(); if (e == RA_ERR_SUCCESS) rsx_assert(is(r, "09"), "gcd"); break;
  case 5: on(); e = GetGCDEx(r, q, s, a, b, rsx_pick(0, 1, "unsigned")); off(); break;
  default: on(); e = BnToByteArray(a, NULL, 0); off(); if (e != 0) rsx_assert(e == 20, "size"); break;
  }
  rsx_assert(rsx_live() == base, "nothing leaked"); BnFree(a); BnFree(b); BnFree(q); BnFree(r); BnFree(s);
#elif defined MONT
  BN *N = num("d67218c2f2a5a397", 2), *a = num("0123456789abcdef", 2), *x = num("05", 2), *r = BnNewW(4); struct RaMontCtx *c = NULL;
  if (rsx_pick(0, 1, "what")) { on(); e = RaMontCreate(N, &c); off(); if (e == RA_ERR_SUCCESS) { rsx_assert(c != NULL, "context"); RaMontDestroy(c); } else rsx_assert(c == NULL, "no context on error"); }
  else {
    rsx_assert(RaMontCreate(N, &c) == RA_ERR_SUCCESS, "context"); on(); e = RaMontExpMod(c, r, a, x); off(); if (e == RA_ERR_SUCCESS) rsx_assert(is(r, "34efb6e51c3abdd5"), "power");
    rsx_assert(rsx_live() == base, "nothing leaked"); rsx_assert(RaMontExpMod(c, r, a, x) == RA_ERR_SUCCESS && is(r, "34efb6e51c3abdd5"), "the context still works"); RaMontDestroy(c);
  }
  BnFree(N); BnFree(a); BnFree(x); BnFree(r); rsx_assert(rsx_live() == 0, "nothing leaked");
#elif defined PRIME
  int pr = rsx_pick(0, 1, "prime"); BN *n = num(pr ? "f1" : "f3", 2), *g = BnNewW(4); static uint8_t sd[1] = { 9 }; struct RaRandom *r = NULL;
  switch (rsx_pick(0, 2, "what")) {
  case 0: on(); e = RaIsPrimeNumber(n); off(); rsx_assert(pr | (e != RA_ERR_SUCCESS), "no composite number is called prime"); break;
  case 1: on(); e = RaGenPrimeNumberEx(g, 32, NULL, NULL, NULL); off(); if (e == RA_ERR_SUCCESS) rsx_assert(BnGetBitLength(g) == 32, "size"); break;
  default: rsx_assert(RaRandomCreate(RA_RAND_SHA160, sd, 1, &r) == RA_ERR_SUCCESS, "generator"); on(); e = RaGenPrimeNumberEx(g, 32, NULL, NULL, r); off(); if (e == RA_ERR_SUCCESS) rsx_assert(BnGetBitLength(g) == 32, "size");
  }
  rsx_assert(rsx_live() == base, "nothing leaked"); BnFree(n); BnFree(g); RaRandomDestroy(r);
#elif defined DER
  struct RaAsn1Ctx *c = NULL; uint8_t d[62]; d[0] = 0x30; d[1] = 60; for (i = 0; i < 30; i++) { d[2 + 2 * i] = 5; d[3 + 2 * i] = 0; }
  on(); e = RaAsn1CreateContext(d, sizeof d, &c); off(); if (e == RA_ERR_SUCCESS) { rsx_assert(c != NULL, "context"); RaAsn1DestroyContext(c); } else rsx_assert(c == NULL, "no context on error");
  rsx_assert(rsx_live() == 0, "nothing leaked");
#elif defined IMPORT
  struct RaRsaKeyPair *k = NULL; uint8_t p8[128]; int n;
  static const uint8_t alg[] = { 0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01, 0x05, 0x00 };
  on();
  switch (rsx_pick(0, 3, "what")) {
#ifdef VERIFY
  case 0: case 1: case 2: e = RaRsaCreateKeyPriv(small, sizeof small, &k); break;
#else
  case 0: e = RaRsaCreateKeyPub(pub, sizeof pub, &k); break;
  case 1: e = RaRsaCreateKeyPriv(priv, sizeof priv, &k); break;
  case 2: p8[0] = 0x30; p8[1] = 3 + sizeof alg + 2 + sizeof priv; p8[2] = 2; p8[3] = 1; p8[4] = 0; memcpy(p8 + 5, alg, sizeof alg); n = 5 + sizeof alg; p8[n] = 4; p8[n + 1] = sizeof priv; memcpy(p8 + n + 2, priv, sizeof priv); e = RaRsaCreateKeyFromByteArray(p8, n + 2 + sizeof priv, &k); break;
#endif
  default: p8[0] = 0x30; p8[1] = sizeof alg + 3 + sizeof pub; memcpy(p8 + 2, alg, sizeof alg); n = 2 + sizeof alg; p8[n] = 3; p8[n + 1] = sizeof pub + 1; p8[n + 2] = 0; memcpy(p8 + n + 3, pub, sizeof pub); e = RaRsaCreateKeyFromByteArray(p8, n + 3 + sizeof pub, &k);
  }
  off();
  if (e == RA_ERR_SUCCESS) { rsx_assert(k != NULL && RaRsaKeyBitLength(k) > 8, "key"); RaRsaDestroyKeyPair(k); } else rsx_assert(k == NULL, "no key on error");
  rsx_assert(rsx_live() == 0, "nothing leaked");
#elif defined RSA
  struct RaRsaKeyPair *k = key(); BN *m = num("0123456789abcdef", 2), *s = BnNewW(4), *t = BnNewW(4); uint8_t buf[300]; int len = -1; BN *sig = BnNewW(4); int ok;
  BnSet(sig, m); rsx_assert(RaRsaEncrypt(k, sig, t) == RA_ERR_SUCCESS, "power");
  switch (rsx_pick(0, 5, "what")) {
  case 0: on(); e = RaRsaEncrypt(k, m, s); off(); if (e == RA_ERR_SUCCESS) rsx_assert(BnCmp(s, t) == 0, "same as without failures"); break;
  case 1: on(); e = RaRsaDecrypt(k, m, s); off(); break;
  case 2: on(); e = RaRsaSign(k, m, s); off(); break;
  case 3: ok = rsx_pick(0, 1, "match"); on(); e = RaRsaVerify(k, sig, ok ? t : m); off(); if (!ok) rsx_assert(e != RA_ERR_SUCCESS, "a failing allocation does not make a wrong signature right"); break;
  case 4: on(); e = RaRsaPrivKeyToByteArray(k, buf, sizeof buf, &len); off(); if (e == RA_ERR_SUCCESS) rsx_assert(len > 60, "length"); break;
  default: on(); e = RaRsaPubKeyToByteArray(k, buf, sizeof buf, &len); off(); if (e == RA_ERR_SUCCESS) rsx_assert(len > 20, "length");
  }
  rsx_assert(rsx_live() == base, "nothing leaked"); RaRsaDestroyKeyPair(k); BnFree(m); BnFree(s); BnFree(t); BnFree(sig); rsx_assert(rsx_live() == 0, "nothing leaked");
#elif defined GENKEY
  struct RaRsaKeyPair *k = NULL; on(); e = RaRsaCreateKeyPair(BITS, &k); off();
  if (e == RA_ERR_SUCCESS) { rsx_assert(k != NULL && RaRsaKeyBitLength(k) == BITS, "key"); RaRsaDestroyKeyPair(k); } else rsx_assert(k == NULL, "no key on error");
  rsx_assert(rsx_live() == 0, "nothing leaked");
#elif defined VKEY
  struct RaRsaKeyPair *k = NULL; static const uint8_t small[] = { 0x30, 0x1d, 2, 1, 0, 2, 2, 0x0c, 0xa1, 2, 1, 17, 2, 2, 0x0a, 0xc1, 2, 1, 61, 2, 1, 53, 2, 1, 53, 2, 1, 49, 2, 1, 38 };
  rsx_assert(RaRsaCreateKeyPriv(small, sizeof small, &k) == RA_ERR_SUCCESS && k, "key"); on(); e = RaRsaVerifyKey(k); off();
  rsx_assert(rsx_live() == base, "nothing leaked"); RaRsaDestroyKeyPair(k); rsx_assert(rsx_live() == 0, "nothing leaked");
#endif
  (void)failed;
}
