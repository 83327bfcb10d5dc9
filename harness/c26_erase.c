#include "racrypt.h"
#include "rsx.h"
/* what the object held: every byte of these ranges must be zero when the block around them is released */
#define MAXR 24
static struct { const uint8_t *p; size_t n; int done; } reg[MAXR]; static int nreg, watching;
static void secret(const void *p, size_t n) { reg[nreg].p = p; reg[nreg].n = n; reg[nreg].done = 0; nreg++; }
#ifdef RSAKEY
#define SYM 1
#else
#define SYM 0
#endif
#ifdef OPAQUE   /* key and Montgomery contexts: no byte of a released block may depend on the secrets (natively, and for the Montgomery context's plain numbers: is nonzero behind the header) */
void rsx_free_hook(void *p, size_t n) {
  const uint8_t *b = p; size_t i; int bad = 0;
  if (!watching) return;
  for (i = 0; i < n; i++) if (SYM && rsx_engine() ? rsx_is_symbolic(b[i]) : i >= sizeof(struct RaBigNumber) && b[i] != 0) bad = 1;
  rsx_assert(!bad, "released memory holds nothing of the secrets");
}
#else
void rsx_free_hook(void *p, size_t n) {
  const uint8_t *b = p; int r; size_t i;
  if (!watching) return;
  for (r = 0; r < nreg; r++) if (!reg[r].done && reg[r].p >= b && reg[r].p < b + n) {
    uint8_t o = 0; for (i = 0; i < reg[r].n; i++) o |= reg[r].p[i];
    rsx_assert(o == 0, "secret erased before release"); reg[r].done = 1;
  }
}
#endif
static void gone(void) { int r; watching = 0; for (r = 0; r < nreg; r++) rsx_assert(reg[r].done, "memory released"); rsx_assert(rsx_live() == 0, "nothing leaked"); }
static uint8_t key[64], iv[16], data[300], out[320];
#define BLOCK(X, create) do { struct Ra##X##Ctx *c = NULL; rsx_assert(create == RA_ERR_SUCCESS && c != NULL, "create"); \
  if (m != RA_BLOCK_MODE_ECB) Ra##X##SetIV(c, iv); if (rsx_pick(0, 1, "decrypt")) Ra##X##Decrypt(c, data, n, out); else Ra##X##Encrypt(c, data, n, out); \
  secret(c, sizeof *c); watching = 1; Ra##X##Destroy(c); gone(); Ra##X##Destroy(NULL); } while (0)
#define DIGEST(X, create) do { struct Ra##X##Ctx *c = NULL; rsx_assert(create == RA_ERR_SUCCESS && c != NULL, "create"); \
  Ra##X##Update(c, data, n); if (rsx_pick(0, 1, "final")) Ra##X##Final(c, out); secret(c, sizeof *c); watching = 1; Ra##X##Destroy(c); gone(); Ra##X##Destroy(NULL); } while (0)
void harness(void) {
  int n, i;
  rsx_sym(key, sizeof key, "key"); rsx_sym(iv, sizeof iv, "iv"); rsx_sym(data, sizeof data, "data");
#if defined CIPHER
  enum RaBlockCipherMode m = (enum RaBlockCipherMode[]){ RA_BLOCK_MODE_ECB, RA_BLOCK_MODE_CBC, RA_BLOCK_MODE_CFB, RA_BLOCK_MODE_OFB }[rsx_pick(0, 3, "mode")]; n = rsx_pick(0, 2, "length"); n = n == 0 ? 0 : n == 1 ? 5 : 21;
#if CIPHER == 0
  switch (rsx_pick(0, 2, "size")) { case 0: BLOCK(Aes, RaAesCreate(key, RA_AES_128, m, &c)); break; case 1: BLOCK(Aes, RaAesCreate(key, RA_AES_192, m, &c)); break; default: BLOCK(Aes, RaAesCreate(key, RA_AES_256, m, &c)); }
#elif CIPHER == 1
  switch (rsx_pick(0, 2, "size")) { case 0: BLOCK(Des, RaDesCreate(key, RA_DES, m, &c)); break; case 1: BLOCK(Des, RaDesCreate(key, RA_DES_EDE2, m, &c)); break; default: BLOCK(Des, RaDesCreate(key, RA_DES_EDE3, m, &c)); }
#elif CIPHER == 2
  BLOCK(Seed, RaSeedCreate(key, m, &c));
#elif CIPHER == 3
  switch (rsx_pick(0, 2, "size")) { case 0: BLOCK(Aria, RaAriaCreate(key, RA_ARIA_128, m, &c)); break; case 1: BLOCK(Aria, RaAriaCreate(key, RA_ARIA_192, m, &c)); break; default: BLOCK(Aria, RaAriaCreate(key, RA_ARIA_256, m, &c)); }
#else
  for (i = 0; i < 8; i++) key[i] = 17 * i + 3;   /* the key-dependent tables are plain numbers then */
  BLOCK(Blowfish, RaBlowfishCreate(key, 8, m, &c));
#endif
#elif defined RC4
  struct RaRc4Ctx *c = NULL; rsx_assert(RaRc4Create(key, 8, &c) == RA_ERR_SUCCESS, "create"); secret(c, sizeof *c); watching = 1; RaRc4Destroy(c); gone(); RaRc4Destroy(NULL);
#elif defined DGST
  n = rsx_pick(0, 2, "length"); n = n == 0 ? 0 : n == 1 ? 37 : 130;
  switch (rsx_pick(0, 7, "digest")) {
  case 0: DIGEST(Sha1, RaSha1Create(&c)); break; case 1: DIGEST(Sha2, RaSha2Create(RA_DGST_SHA2_256, &c)); break; case 2: DIGEST(Sha2, RaSha2Create(RA_DGST_SHA2_512, &c)); break; case 3: DIGEST(Sha2, RaSha2Create(RA_DGST_SHA2_224, &c)); break;
  case 4: DIGEST(Md5, RaMd5Create(&c)); break; case 5: DIGEST(Md4, RaMd4Create(&c)); break; case 6: DIGEST(Md2, RaMd2Create(&c)); break; default: DIGEST(Has160, RaHas160Create(&c));
  }
#elif defined RAND
  struct RaRandom *r = NULL; int a = rsx_pick(0, 3, "algorithm"); n = rsx_pick(0, 2, "length"); n = n == 0 ? 0 : n == 1 ? 9 : 130;
  rsx_assert(RaRandomCreate(a == 0 ? RA_RAND_SHA160 : a == 1 ? RA_RAND_SHA256 : a == 2 ? RA_RAND_SHA512 : RA_RAND_MD5, data, 40, &r) == RA_ERR_SUCCESS, "create"); RaRandomBytes(r, n, out);
  secret(r, sizeof *r); secret(r->alg_ctx, a == 0 ? sizeof(struct RaSha1Ctx) : a == 3 ? sizeof(struct RaMd5Ctx) : sizeof(struct RaSha2Ctx)); watching = 1; RaRandomDestroy(r); gone(); RaRandomDestroy(NULL);
#elif defined BNCLR
  int cap = rsx_pick(2, 6, "capacity"), len = rsx_pick(1, cap, "words"); struct RaBigNumber *b = rsx_pick(0, 1, "clone") ? NULL : BnNewW(cap), *t;
  if (!b) { t = BnNewW(cap); t->sign = 1; b = BnClone(t); BnFree(t); }
  rsx_sym(b->data, b->max_length * BN_WORD_BYTE, "words"); b->length = len; b->sign = 1;   /* words above the length were used earlier */
  secret(b->data, b->max_length * BN_WORD_BYTE); watching = 1; BnClearFree(b); gone();
#elif defined MONT
  struct RaBigNumber *N = BnNewW(2), *a = BnNewW(2), *e = BnNewW(2), *r = BnNewW(2); struct RaMontCtx *c = NULL; static const uint8_t nb[8] = { 0x7a, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77 };
  BnSetUByteArray(N, nb, 8); rsx_assert(RaMontCreate(N, &c) == RA_ERR_SUCCESS, "context");
  BnSetUInt64(a, (uint64_t[]){ 0x123456789abcdef1u, 3, 0xfffffffffffffff0u, 0 }[rsx_pick(0, 3, "base")]); BnSetUInt(e, rsx_pick(0, 9, "exponent")); rsx_assert(RaMontExpMod(c, r, a, e) == RA_ERR_SUCCESS, "power");
  BnFree(N); BnFree(a); BnFree(e); BnFree(r); watching = 1; RaMontDestroy(c); gone(); RaMontDestroy(NULL);
#elif defined RSAKEY
  /* a private key whose modulus and exponent are plain numbers and whose private parts are arbitrary (positive, of fixed lengths) */
  uint8_t d[160]; int p = 0, k; static const int len[6] = { 16, 9, 8, 8, 8, 7 }; struct RaRsaKeyPair *q = NULL; int body;
  static const uint8_t head[] = { 2, 1, 0, 2, 16, 0x5a, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde, 0xf1, 2, 3, 1, 0, 1 };
  d[p++] = 0x30; p++; memcpy(d + p, head, sizeof head); p += sizeof head;
  for (k = 0; k < 6; k++) { d[p++] = 2; d[p++] = len[k]; rsx_sym(d + p, len[k], "part"); rsx_assume(d[p] >= 1); rsx_assume(d[p] < 0x80); p += len[k]; }
  d[1] = p - 2;
  rsx_assert(RaRsaCreateKeyPriv(d, p, &q) == RA_ERR_SUCCESS && q != NULL, "import"); watching = 1; RaRsaDestroyKeyPair(q); gone(); RaRsaDestroyKeyPair(NULL);
#endif
}
