#include "bnx.h"
#ifndef W
#define W 2
#endif
#if BN_WORD_BYTE == 8
typedef unsigned __int128 dbl;
#else
typedef uint64_t dbl;
#endif
static ubig prodMag(const bn_uint_t *a, int n, const bn_uint_t *b, int m) {
  ubig s = 0; int i, j;
  for (i = 0; i < m; i++) for (j = 0; j < n; j++) s += (ubig)((dbl)a[j] * b[i]) << ((i + j) * BN_WORD_BIT);
  return s;
}
static void words(ubig v, bn_uint_t *o, int n) { int i; for (i = 0; i < n; i++) o[i] = (bn_uint_t)(v >> (i * BN_WORD_BIT)); }
void harness(void) {
  int e, i; BN *a, *b, *q, *r; ubig m; bn_uint_t u, rem;
#if defined OPWORD
  a = bnSym(1, W, W, 1, "a"); m = bnMag(a); int s = a->sign, n = a->length; rsx_sym(&u, sizeof u, "u"); rsx_assume(u != 0); big x = bnVal(a);
  rem = 0x5a; bn_uint_t *rp = &rem; int op = rsx_pick(0, 2, "op"); bn_uint_t d = u; int neg = 0;
  if (op < 2 && rsx_pick(0, 1, "noremainder")) rp = NULL;
  if (op == 0) e = BnDivUInt(a, u, rp);
  else if (op == 1) { neg = rsx_concrete((bn_int_t)u < 0); if (neg) d = -u; e = BnDivInt(a, (bn_int_t)u, rp); }
  else { BN *c = BnClone(a); rsx_assert(c != NULL, "clone"); e = BnModUInt(a, u, rp); bnSame(a, x, "operand untouched"); rsx_assert(e == RA_ERR_SUCCESS, "succeeds"); bn_uint_t rem2;
         e = BnDivUInt(c, u, &rem2); rsx_assert(rem == rem2, "remainder of a word"); BnFree(a); a = c; }
  rsx_assert(e == RA_ERR_SUCCESS, "succeeds"); bnOk(a);
  if (rp) { rsx_assert(rem < d, "remainder below the divisor"); rsx_assert(prodMag(a->data, a->length, &d, 1) + rem == m, "quotient times divisor plus remainder"); }
  else { bn_uint_t t; BN *c = bnRoom(n); words(m, c->data, n); c->length = n; c->sign = 0; e = BnDivUInt(c, d, &t); rsx_assert(bnMag(c) == bnMag(a), "same quotient without a remainder"); BnFree(c); }
  rsx_assert((a->sign == (s ^ neg)) | (a->length == 1 && a->data[0] == 0), "sign of the quotient");
  BnFree(a);
#elif defined OPDIV   /* magnitudes: a = q*b + r, r < b; checked on the operands shifted so that b's top bit is set */
  b = bnSym(BLO, BHI, 0, 0, "b"); a = bnSym(ALO, AHI, 0, 0, "a"); m = bnMag(a);
  int k = rsx_pick(KLO, KHI, "leadingzeros"), n = a->length > b->length ? a->length - b->length + 1 : 1;
#if defined EDGE   /* divisor words from the edge patterns, the dividend unconstrained (or all but one word likewise) */
  bnEdge(b, 1, 3); if (EDGE > 1) bnEdge(a, 0, 4); m = bnMag(a);
#endif
  b->data[b->length - 1] = (b->data[b->length - 1] | (bn_uint_t)1 << (BN_WORD_BIT - 1)) >> k;   /* any top word with k leading zeros */
  q = bnRoom(n + SPARE); r = bnRoom(b->length);
  big bv = bnVal(b), av = bnVal(a);
  e = BnDiv(q, r, a, b); rsx_assert(e == RA_ERR_SUCCESS, "succeeds"); bnOk(q); bnOk(r); bnSame(a, av, "operand untouched"); bnSame(b, bv, "operand untouched");
  rsx_assert((q->sign == 0) | (bnMag(q) == 0), "sign of the quotient"); rsx_assert((r->sign == 0) | (bnMag(r) == 0), "sign of the remainder");
  rsx_assert(bnMag(r) < bnMag(b), "remainder below the divisor");
  bn_uint_t bb[BHI + 1]; words(bnMag(b) << k, bb, b->length + 1); rsx_assert(bb[b->length] == 0, "");
  rsx_assert(prodMag(q->data, q->length, bb, b->length) + (bnMag(r) << k) == m << k, "quotient times divisor plus remainder");
  BN *t = bnRoom(b->length); e = BnMod(t, a, b); rsx_assert(e == RA_ERR_SUCCESS, "succeeds"); bnOk(t); rsx_assert(bnMag(t) == bnMag(r), "modulo is the remainder of the division");
  bnSame(a, av, "operand untouched"); bnSame(b, bv, "operand untouched");
  rsx_observe(q->data, q->length * BN_WORD_BYTE, "q"); rsx_observe(r->data, r->length * BN_WORD_BYTE, "r");
  BnFree(a); BnFree(b); BnFree(q); BnFree(r); BnFree(t);
#elif defined OPSIGN  /* signed operands against the division of the magnitudes */
  b = bnSym(BLO, BHI, 0, 1, "b"); a = bnSym(ALO, AHI, 0, 1, "a");
  int k = rsx_pick(KLO, KHI, "leadingzeros"), n = a->length > b->length ? a->length - b->length + 1 : 1, sa = a->sign, sb = b->sign;
  b->data[b->length - 1] = (b->data[b->length - 1] | (bn_uint_t)1 << (BN_WORD_BIT - 1)) >> k;   /* any top word with k leading zeros */
  q = bnRoom(n + 1); r = bnRoom(b->length); BN *q0 = bnRoom(n), *r0 = bnRoom(b->length), *t = bnRoom(b->length);
  a->sign = b->sign = 0; e = BnDiv(q0, r0, a, b); rsx_assert(e == RA_ERR_SUCCESS, "succeeds");
  big Q = bnMag(q0), R = bnMag(r0), B = bnMag(b);
  a->sign = sa; b->sign = sb; big av = bnVal(a), bv = bnVal(b);
  e = BnDiv(q, r, a, b); rsx_assert(e == RA_ERR_SUCCESS, "succeeds"); bnSame(a, av, "operand untouched"); bnSame(b, bv, "operand untouched");
  if (sa != sb) { Q = -Q; if (R != 0) { Q--; R = B - R; } }
  bnIs(q, Q, "quotient rounded down"); bnIs(r, sb ? -R : R, "remainder with the divisor's sign");
  e = BnMod(t, a, b); rsx_assert(e == RA_ERR_SUCCESS, "succeeds"); bnIs(t, sa ? -(big)bnMag(r0) : (big)bnMag(r0), "modulo with the dividend's sign");
  BnFree(a); BnFree(b); BnFree(q); BnFree(r); BnFree(q0); BnFree(r0); BnFree(t);
#endif
}
