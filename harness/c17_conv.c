#include "bnx.h"
#ifndef W
#define W 2
#endif
/* big-endian two's complement (or unsigned) value of a byte string */
static big bytesVal(const uint8_t *d, int n, int isSigned) { ubig v = 0; int i; if (isSigned && rsx_concrete(d[0] >> 7)) v = ~v; for (i = 0; i < n; i++) v = v << 8 | d[i]; return (big)v; }
static int fits(big v, int n) { big m = (big)1 << (8 * n - 1); return (v >= -m) & (v < m); }
void harness(void) {
  int e, n, i;
#if defined OPREAD
  n = rsx_pick(LO, HI, "length"); int sg = rsx_pick(0, 1, "signed"), need = (n + BN_WORD_BYTE - 1) / BN_WORD_BYTE, cap = rsx_pick(0, 1, "short") ? need - 1 : need;
  uint8_t *d = malloc(n); rsx_sym(d, n, "d"); if (cap < 2) cap = 2;
  big v = bytesVal(d, n, sg); ubig m = v < 0 ? -(ubig)v : (ubig)v; int ok = rsx_concrete(m >> (cap * BN_WORD_BIT) == 0);
  BN *b = BnNewW(cap); rsx_assert(b != NULL, "new"); rsx_sym(b->data, cap * BN_WORD_BYTE, "old"); b->sign = rsx_pick(0, 1, "oldsign");
  e = sg ? BnSetByteArray(b, d, n) : BnSetUByteArray(b, d, n);
  if (ok) { rsx_assert(e == RA_ERR_SUCCESS, "reads a number that fits"); bnIs(b, v, "value of the bytes"); } else rsx_assert(e != RA_ERR_SUCCESS, "a number that does not fit is refused");
  rsx_assert((sg ? BnSetByteArray(b, d, 0) : BnSetUByteArray(b, d, 0)) != RA_ERR_SUCCESS, "no bytes are refused");
  BnFree(b); free(d);
#elif defined OPWRITE
  BN *a = bnSym(LO, W, 0, 1, "a"); big v = bnVal(a); int sz = BnToByteArray(a, NULL, 0), k; rsx_assert(sz >= 1 && sz <= W * BN_WORD_BYTE + 1, "size in range"); k = rsx_pick(1, W * BN_WORD_BYTE + 1, "size"); rsx_assume(k == sz); sz = k;
  rsx_assert(fits(v, sz), "size holds the value"); if (sz > 1) rsx_assert(!fits(v, sz - 1), "size is the least");
  n = rsx_pick(0, 4, "buffer"); n = n == 0 ? 0 : n == 1 ? sz - 1 : n == 2 ? sz / 2 : n == 3 ? sz : sz + 2;
  uint8_t *o = malloc(n ? n : 1), *p = n ? o : o + 1; memset(o, 0xa5, n);
  e = BnToByteArray(a, p, n);
  if (n < sz) rsx_assert(e == 0, "too small a buffer");
  else { rsx_assert(e == sz, "bytes written"); rsx_assert(bytesVal(o, sz, 1) == v, "bytes are the value"); for (i = sz; i < n; i++) rsx_assert(o[i] == 0xa5, "nothing past the bytes"); rsx_observe(o, sz, "o"); }
  bnSame(a, v, "number untouched"); BnFree(a); free(o);
#elif defined OPFIXED
  BN *a = bnSym(LO, W, 0, 1, "a"); big v = bnVal(a); int sz = BnToFixedByteArray(a, NULL, 0), neg = a->sign && rsx_concrete(v != 0), k;
  if (neg) { uint8_t t[W * BN_WORD_BYTE]; rsx_assert(sz == 0 && BnToFixedByteArray(a, t, sizeof t) == 0, "no unsigned form of a negative number"); BnFree(a); return; }
  rsx_assert(sz >= 1 && sz <= W * BN_WORD_BYTE, "size in range"); k = rsx_pick(1, W * BN_WORD_BYTE, "size"); rsx_assume(k == sz); sz = k;
  rsx_assert((ubig)v >> (8 * sz) == 0, "size holds the value"); if (sz > 1) rsx_assert((ubig)v >> (8 * (sz - 1)) != 0, "size is the least");
  n = rsx_pick(0, 4, "buffer"); n = n == 0 ? 0 : n == 1 ? sz - 1 : n == 2 ? sz + 1 : n == 3 ? sz : W * BN_WORD_BYTE + 3;
  uint8_t *o = malloc(n ? n : 1), *p = n ? o : o + 1;
  e = BnToFixedByteArray(a, p, n);
  if (n < sz) rsx_assert(e == 0, "too small a buffer");
  else { rsx_assert(e == n, "bytes written"); rsx_assert(bytesVal(o, n, 0) == v, "bytes are the value, zero padded"); rsx_observe(o, n, "o"); }
  bnSame(a, v, "number untouched"); BnFree(a); free(o);
#elif defined OPINT
  uint64_t u; rsx_sym(&u, 8, "u"); BN *b = BnNewW(2), *c; rsx_sym(b->data, 2 * BN_WORD_BYTE, "old"); b->length = rsx_pick(1, 2, "oldlength"); b->sign = rsx_pick(0, 1, "oldsign"); big w;
  switch (rsx_pick(0, 5, "op")) {
  case 0: BnSetInt(b, (bn_int_t)u); w = (bn_int_t)u; break;
  case 1: BnSetInt32(b, (int32_t)u); w = (int32_t)u; break;
  case 2: BnSetInt64(b, (int64_t)u); w = (int64_t)u; break;
  case 3: BnSetUInt(b, (bn_uint_t)u); w = (bn_uint_t)u; break;
  case 4: BnSetUInt32(b, (uint32_t)u); w = (uint32_t)u; break;
  default: BnSetUInt64(b, u); w = u;
  }
  bnIs(b, w, "integer set"); ubig m = bnMag(b);
  rsx_assert(_BnGetUInt32(b) == (uint32_t)m, "low 32 bits"); rsx_assert(_BnGetUInt64(b) == (uint64_t)m, "low 64 bits"); rsx_assert(_BnGetUInt(b) == (bn_uint_t)m, "low word");
  c = BnClone(b); rsx_assert(c != NULL && c != b && c->max_length >= b->length, "clone"); bnIs(c, w, "clone has the value"); BnFree(c); bnSame(b, w, "original untouched"); BnFree(b);
#elif defined OPSET
  BN *a = bnSym(1, W, W + 1, 1, "a"); big v = bnVal(a); int cap = rsx_pick(2, W + 1, "capacity"); BN *b = bnRoom(cap), *c = BnClone(a);
  e = BnSet(b, a); if (a->length <= cap) { rsx_assert(e == RA_ERR_SUCCESS, "copies"); bnIs(b, v, "copied value"); } else rsx_assert(e != RA_ERR_SUCCESS, "too long a number is refused");
  bnIs(c, v, "clone has the value"); rsx_assert(c->max_length == a->max_length, "clone has the capacity"); bnSame(a, v, "original untouched");
  ubig m = bnMag(a); rsx_assert(_BnGetUInt32(a) == (uint32_t)m, "low 32 bits"); rsx_assert(_BnGetUInt64(a) == (uint64_t)m, "low 64 bits"); rsx_assert(_BnGetUInt(a) == (bn_uint_t)m, "low word");
  BnFree(a); BnFree(b); BnClearFree(c);
#endif
}
