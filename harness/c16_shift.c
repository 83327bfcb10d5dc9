#include "bnx.h"
#ifndef W
#define W 3
#endif
static int bitsOf(BN *a) { bn_uint_t t = a->data[a->length - 1]; int n = (a->length - 1) * BN_WORD_BIT; while (rsx_concrete(t != 0)) n++, t >>= 1; return n; }
void harness(void) {
  BN *a; big x; int e, k;
#if defined OPL   /* room to spare, and just enough */
  int lo = KLO, hi = KHI; k = rsx_pick(lo, hi, "distance");
  a = bnSym(1, W, 0, 1, "a"); x = bnVal(a);
  int n = a->length + (k + BN_WORD_BIT - 1) / BN_WORD_BIT, cap = rsx_pick(n - 1, n, "capacity");
  BN *b = BnNewW(cap); rsx_assert(b != NULL, "new"); cap = b->max_length; if (cap < a->length) { BnFree(b); BnFree(a); return; }
  rsx_sym(b->data, b->max_length * BN_WORD_BYTE, "old");
  e = BnSet(b, a); rsx_assert(e == RA_ERR_SUCCESS, "set");
  ubig m = bnMag(a) << k; rsx_assume((m == 0 ? (ubig)1 << k : m) >> (cap * BN_WORD_BIT) == 0);   /* the result fits; zero counts as one bit long */
  e = BnShiftL(b, k); rsx_assert(e == RA_ERR_SUCCESS, "succeeds"); bnOk(b);
  rsx_assert(bnMag(b) == m, "left shift multiplies by the power of two"); rsx_assert((b->sign == a->sign) | (m == 0), "sign kept");
  bnSame(a, x, "source untouched"); rsx_observe(b->data, b->length * BN_WORD_BYTE, "r"); BnFree(a); BnFree(b);
#elif defined OPR
  k = rsx_pick(KLO, KHI, "distance"); a = bnSym(1, W, W, 1, "a"); int s = a->sign; ubig m = bnMag(a) >> k;
  e = BnShiftR(a, k); rsx_assert(e == RA_ERR_SUCCESS, "succeeds"); bnOk(a);
  rsx_assert(bnMag(a) == m, "right shift divides rounding toward zero"); rsx_assert((a->sign == s) | (m == 0), "sign kept");
  rsx_observe(a->data, a->length * BN_WORD_BYTE, "r"); BnFree(a);
#elif defined OPBITS
  a = bnSym(1, W, W, 1, "a"); x = bnVal(a); rsx_assume(x != 0); k = BnGetBitLength(a); ubig m = bnMag(a);
  rsx_assert(k >= 1 && k <= W * BN_WORD_BIT, "bit length in range");
  rsx_assert((m >> (unsigned)(k - 1)) == 1, "bit length is the position of the highest set bit plus one");
  bn_uint_t t = a->data[a->length - 1]; rsx_assert((t >> _BnGetMSBPos(t)) == 1, "position of the highest set bit");
  rsx_assert(BnGetLength(a) == a->length && BnGetMaxLength(a) == a->max_length, "length queries"); bnSame(a, x, "untouched");
  BnFree(a);
#endif
}
