/* One name per digest algorithm: D_CTX, dInit, dUpdate, dFinal, dOneShot, block size DB, digest size DL, reference specBlocks */
#ifndef DG_H
#define DG_H
#include "racrypt.h"
#include "rsx.h"
#include "spec_digest.h"
#if defined SHA1
#define D_CTX RaSha1Ctx
#define DNAME(x) RaSha1##x
#define DB 64
#define DL 20
#define BIGEND 1
static const uint32_t dIV[] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
typedef uint32_t dWord; typedef struct { uint32_t h[5]; } dSpec;
#define specBlock(s, p) sha1Block((s)->h, p)
#elif defined HAS160
#define D_CTX RaHas160Ctx
#define DNAME(x) RaHas160##x
#define DB 64
#define DL 20
static const uint32_t dIV[] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0};
typedef uint32_t dWord; typedef struct { uint32_t h[5]; } dSpec;
#define specBlock(s, p) has160Block((s)->h, p)
#elif defined MD5 || defined MD4
#ifdef MD5
#define D_CTX RaMd5Ctx
#define DNAME(x) RaMd5##x
#define specBlock(s, p) md5Block((s)->h, p)
#else
#define D_CTX RaMd4Ctx
#define DNAME(x) RaMd4##x
#define specBlock(s, p) md4Block((s)->h, p)
#endif
#define DB 64
#define DL 16
static const uint32_t dIV[] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
typedef uint32_t dWord; typedef struct { uint32_t h[4]; } dSpec;
#elif defined MD2
#define D_CTX RaMd2Ctx
#define DNAME(x) RaMd2##x
#define DB 16
#define DL 16
typedef struct { uint8_t st[16], ck[16]; } dSpec;
#define specBlock(s, p) md2Block((s)->st, (s)->ck, p)
#elif defined SHA256 || defined SHA224
#define D_CTX RaSha2Ctx
#define DB 64
#define BIGEND 1
#ifdef SHA256
#define DL 32
#define ALG RA_DGST_SHA2_256
#define dIV specH256
#else
#define DL 28
#define ALG RA_DGST_SHA2_224
#define dIV specH224
#endif
typedef uint32_t dWord; typedef struct { uint32_t h[8]; } dSpec;
#define specBlock(s, p) sha256Block((s)->h, p)
#else
#define D_CTX RaSha2Ctx
#define DB 128
#define BIGEND 1
#if defined SHA512
#define DL 64
#define ALG RA_DGST_SHA2_512
#define dIV specH512
#elif defined SHA384
#define DL 48
#define ALG RA_DGST_SHA2_384
#define dIV specH384
#elif defined SHA512_256
#define DL 32
#define ALG RA_DGST_SHA2_512_256
#define dIV specH512_256
#else
#define DL 28
#define ALG RA_DGST_SHA2_512_224
#define dIV specH512_224
#endif
typedef uint64_t dWord; typedef struct { uint64_t h[8]; } dSpec;
#define specBlock(s, p) sha512Block((s)->h, p)
#endif
#ifdef ALG
#define dInit(c) RaSha2Init(c, ALG)
#define dUpdate RaSha2Update
#define dFinal RaSha2Final
#define dCreate(c) RaSha2Create(ALG, c)
#define dDestroy RaSha2Destroy
#else
#define dInit DNAME(Init)
#define dUpdate DNAME(Update)
#define dFinal DNAME(Final)
#define dCreate(c) DNAME(Create)(c)
#define dDestroy DNAME(Destroy)
#define dOneShot DNAME()
#endif
/* arbitrary state reachable after a whole number of blocks plus r bytes: chaining value and counter are variables */
typedef struct { dSpec s; uint64_t hh, total; uint8_t prefix[DB]; } dState;
#ifndef MD2
static void dPutLen(uint8_t *p, uint64_t hh, uint64_t total, int words) {   /* length in bits, DB == 128: 128-bit field */
  uint64_t lo = total << 3, hi = hh << 3 | total >> 61; int i;
#ifdef BIGEND
  for (i = 0; i < 8; i++) p[DB - 1 - i] = lo >> 8 * i;
  if (DB == 128) for (i = 0; i < 8; i++) p[DB - 9 - i] = hi >> 8 * i;
#else
  for (i = 0; i < 8; i++) p[DB - 8 + i] = lo >> 8 * i;
#endif
}
#endif
static void dSpecFinal(dSpec *s, uint8_t *buf, int fill, uint64_t hh, uint64_t total, uint8_t *out) {   /* buf: DB bytes, fill < DB used */
  int i, L = DB == 128 ? 16 : 8; uint8_t b[DB];
  memcpy(b, buf, fill);
#ifdef MD2
  for (i = fill; i < 16; i++) b[i] = 16 - fill;
  specBlock(s, b); memcpy(b, s->ck, 16); specBlock(s, b); memcpy(out, s->st, 16);
#else
  b[fill++] = 0x80;
  if (fill > DB - L) { while (fill < DB) b[fill++] = 0; specBlock(s, b); fill = 0; }
  while (fill < DB) b[fill++] = 0;
  dPutLen(b, hh, total, L); specBlock(s, b);
  for (i = 0; i < DL; i++) {
#ifdef BIGEND
    out[i] = s->h[i / sizeof(dWord)] >> 8 * (sizeof(dWord) - 1 - i % sizeof(dWord));
#else
    out[i] = s->h[i / 4] >> 8 * (i % 4);
#endif
  }
#endif
}
static void dSpecUpdate(dState *t, int r, const uint8_t *data, int n) {   /* absorb n bytes, r bytes pending */
  int i; for (i = 0; i < n; i++) { t->prefix[r++] = data[i]; if (r == DB) { specBlock(&t->s, t->prefix); r = 0; } }
  t->hh += t->total + n < t->total; t->total += n;
}
/* the byte counter is proved first; the standard then goes on with the library's own form of the same number */
static void dSameCount(struct D_CTX *c, dState *t) {
#ifdef MD2
  rsx_assert((uint32_t)c->totalLen == (uint32_t)t->total, "byte counter");
  rsx_eq(c->state, t->s.st, 16, "state after the update"); rsx_eq(c->checksum, t->s.ck, 16, "checksum after the update");
#else
  unsigned i; for (i = 0; i < sizeof t->s.h / sizeof t->s.h[0]; i++) { dWord w = c->h[i]; rsx_eq(&w, &t->s.h[i], sizeof w, "chaining value after the update"); w = 0; rsx_sym(&w, sizeof w, "h2"); c->h[i] = w; t->s.h[i] = w; }   /* from here on any chaining value */
  uint64_t v = (uint64_t)c->totalLen_h << 32 | c->totalLen_l, m = ~UINT64_C(0);
#if DB == 64 && defined BIGEND
  m >>= 3;
#endif
  rsx_assert((v & m) == (t->total & m), "byte counter"); t->total = v;
#if DB == 128
  rsx_assert(c->totalLen_hh == t->hh, "byte counter, upper half"); t->hh = c->totalLen_hh;
#endif
#endif
}
static void dIVSpec(dSpec *s) {
#ifdef MD2
  memset(s, 0, sizeof *s);
#else
  for (unsigned i = 0; i < sizeof s->h / sizeof s->h[0]; i++) s->h[i] = dIV[i];
#endif
}
/* the state a fresh context must have */
static void dIsFresh(struct D_CTX *c) {
  dState t; memset(&t, 0, sizeof t); dIVSpec(&t.s);
#ifdef MD2
  rsx_assert((c->totalLen & 15) == 0, "a fresh context has no pending bytes"); rsx_eq(c->state, t.s.st, 16, "initial state"); rsx_eq(c->checksum, t.s.ck, 16, "initial checksum");
#else
  unsigned i; for (i = 0; i < sizeof t.s.h / sizeof t.s.h[0]; i++) rsx_assert((dWord)c->h[i] == t.s.h[i], "initial chaining value");
  rsx_assert(c->totalLen_h == 0 && c->totalLen_l == 0, "initial byte counter");
#if DB == 128
  rsx_assert(c->totalLen_hh == 0, "initial byte counter");
#endif
#endif
}
/* symbolic state with r pending bytes in both the context and the specification */
static void dSymState(struct D_CTX *c, dState *t, int r) {
  unsigned i; memset(t, 0, sizeof *t);
  dInit(c);
  rsx_sym(t->prefix, DB, "pending");
#ifdef MD2
  uint32_t tot; rsx_sym(&tot, 4, "total"); tot = tot << 4 | r; c->totalLen = tot; t->total = tot;
  rsx_sym(c->state, 16, "state"); rsx_sym(c->checksum, 16, "checksum"); memcpy(t->s.st, c->state, 16); memcpy(t->s.ck, c->checksum, 16);
#else
  uint64_t tot = rsx_u64("total");
#if DB == 64
  tot = tot << 6 | r;
#ifdef BIGEND
  tot &= UINT64_C(0x1fffffffffffffff);
#endif
#else
  tot = tot << 7 | r; t->hh = rsx_u64("totalhh"); c->totalLen_hh = t->hh;
#endif
  t->total = tot; c->totalLen_h = tot >> 32; c->totalLen_l = tot;
  for (i = 0; i < sizeof t->s.h / sizeof t->s.h[0]; i++) {
#if (defined SHA256 || defined SHA224) && !defined RACRYPT_USE_ASM
    uint64_t w = rsx_u64("h"); c->h[i] = w; t->s.h[i] = w;
#else
    dWord w; rsx_sym(&w, sizeof w, "h"); c->h[i] = w; t->s.h[i] = w;
#endif
  }
#endif
  memcpy(c->buffer, t->prefix, DB);
}
#endif
