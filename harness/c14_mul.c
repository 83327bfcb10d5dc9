#include "bnx.h"
#ifndef W
#define W 2
#endif
#ifndef W2
#define W2 W
#endif
#ifndef FREE
#define FREE 255
#endif
#ifndef LO
#define LO 1
#endif
#ifndef SG
#define SG 1
#endif
#if BN_WORD_BYTE == 8
typedef unsigned __int128 dbl;
#else
typedef uint64_t dbl;
#endif
/* sum of the partial products of every pair of words */
static ubig prodMag(const bn_uint_t *a, int n, const bn_uint_t *b, int m) {
  ubig s = 0; int i, j;
  for (i = 0; i < m; i++) for (j = 0; j < n; j++) s += (ubig)((dbl)a[j] * b[i]) << ((i + j) * BN_WORD_BIT);
  return s;
}
static big prod(BN *a, BN *b) { ubig p = prodMag(a->data, a->length, b->data, b->length); return a->sign != b->sign ? -(big)p : (big)p; }
void harness(void) {
  int e; BN *a, *b, *r; big x, y, p; bn_uint_t u;
#if defined OPMUL
  a = bnSym(LO, W, 0, SG, "a"); b = bnSym(LO, W2, 0, SG, "b"); 
#if defined EDGE
  bnEdge(b, 1, 4); bnEdge(a, 0, 4);
#endif
  x = bnVal(a); y = bnVal(b); p = prod(a, b);
  r = bnRoom(a->length + b->length);
  e = BnMul(r, a, b); rsx_assert(e == RA_ERR_SUCCESS, "succeeds"); bnIs(r, p, "product");
  bnSame(a, x, "operand untouched"); bnSame(b, y, "operand untouched"); BnFree(a); BnFree(b); BnFree(r);
#elif defined OPSQR
  a = bnSym(LO, W, 0, SG, "a");
#if defined EDGE   /* edge patterns with one free byte somewhere */
  bnEdge(a, 1, EDGE); { unsigned char f; rsx_sym(&f, 1, "byte"); f &= FREE; static const int P[3] = { 0, BN_WORD_BIT / 2 - 4, BN_WORD_BIT - 8 }; int i = rsx_pick(0, a->length - 1, "word"); a->data[i] ^= (bn_uint_t)f << P[rsx_pick(0, 2, "place")]; rsx_assume(a->data[a->length - 1] != 0); }
#endif
  x = bnVal(a); p = prod(a, a); r = bnRoom(2 * a->length);
  e = BnSqr(r, a); rsx_assert(e == RA_ERR_SUCCESS, "succeeds"); bnIs(r, p, "square"); bnSame(a, x, "operand untouched"); BnFree(a); BnFree(r);
#elif defined OPDOUBLE
  a = bnSym(LO, W, W + 1, SG, "a"); x = bnVal(a); r = rsx_pick(0, 1, "same") ? a : bnRoom(a->length + 1);
  e = BnDouble(r, a); rsx_assert(e == RA_ERR_SUCCESS, "succeeds"); bnIs(r, x + x, "double"); if (r != a) { bnSame(a, x, "operand untouched"); BnFree(r); } BnFree(a);
#elif defined OPEXACT   /* the result just has room for the product's bits */
  static const int Z[4] = { 1, BN_WORD_BIT / 2, BN_WORD_BIT / 2 + 1, BN_WORD_BIT - 1 };
  a = bnSym(1, W, 0, 0, "a"); b = bnSym(1, W2, 0, 0, "b"); int n = a->length + b->length - 1, z = Z[rsx_pick(0, 3, "zeros")], y2 = BN_WORD_BIT - z; if (n < 2) n = 2;
  a->data[a->length - 1] = (a->data[a->length - 1] | (bn_uint_t)1 << (BN_WORD_BIT - 1)) >> z; b->data[b->length - 1] = (b->data[b->length - 1] | (bn_uint_t)1 << (BN_WORD_BIT - 1)) >> y2; p = prod(a, b);
  r = bnRoom(n); e = BnMul(r, a, b); rsx_assert(e == RA_ERR_SUCCESS, "succeeds"); bnIs(r, p, "product in an exact result"); BnFree(a); BnFree(b); BnFree(r);
#elif defined OPWORD
  a = bnSym(1, W, W + 1, 1, "a"); rsx_sym(&u, sizeof u, "u"); bn_uint_t old[W]; memcpy(old, a->data, a->length * sizeof u); int n = a->length, s = a->sign;
  if (rsx_pick(0, 1, "signed")) {
    int neg = rsx_concrete((bn_int_t)u < 0); bn_uint_t m = u; if (neg) m = -u; p = prodMag(old, n, &m, 1); if (s != neg) p = -p;
    e = BnMulInt(a, (bn_int_t)u);
  } else { p = prodMag(old, n, &u, 1); if (s) p = -p; e = BnMulUInt(a, u); }
  rsx_assert(e == RA_ERR_SUCCESS, "succeeds"); bnIs(a, p, "product with a word"); BnFree(a);
#endif
}
