#include "bnx.h"
#ifndef W
#define W 2
#endif
void harness(void) {
  int i, e; BN *a, *b, *r; big x, y; bn_uint_t u;
#if defined OPADD || defined OPSUB
  int alias = rsx_pick(0, 3, "alias"), cap = W + 1;   /* 0: separate result, 1: r is a, 2: r is b, 3: all the same */
  a = bnSym(1, W, cap, 1, "a"); b = alias == 3 ? a : bnSym(1, W, cap, 1, "b"); x = bnVal(a); y = bnVal(b);
  r = alias == 0 ? bnRoom((a->length > b->length ? a->length : b->length) + 1) : alias == 2 ? b : a;
#ifdef OPADD
  e = BnAdd(r, a, b); rsx_assert(e == RA_ERR_SUCCESS, "add succeeds"); bnIs(r, x + y, "sum");
#else
  e = BnSub(r, a, b); rsx_assert(e == RA_ERR_SUCCESS, "subtract succeeds"); bnIs(r, x - y, "difference");
#endif
  if (r != a) bnSame(a, x, "operand untouched"); if (r != b) bnSame(b, y, "operand untouched");
  if (a != b) BnFree(b); if (r != a && r != b) BnFree(r); BnFree(a);
#elif defined OPEXACT   /* no carry out: the result has room for the longer operand only */
  a = bnSym(1, W, 0, 1, "a"); b = bnSym(1, W, 0, 1, "b"); x = bnVal(a); y = bnVal(b);
  int n = a->length > b->length ? a->length : b->length; if (n < 2) n = 2;
  ubig m = x + y < 0 ? -(ubig)(x + y) : (ubig)(x + y); rsx_assume(m >> (n * BN_WORD_BIT) == 0);
  r = bnRoom(n); e = BnAdd(r, a, b); rsx_assert(e == RA_ERR_SUCCESS, "add succeeds"); bnIs(r, x + y, "sum in an exact result");
  BnFree(a); BnFree(b); BnFree(r);
#elif defined OPCMP
  a = bnSym(1, W, 0, 1, "a"); b = bnSym(1, W, 0, 1, "b"); x = bnVal(a); y = bnVal(b);
  e = BnCmp(a, b); rsx_assert(e == (x < y ? -1 : x > y), "compare");
  e = BnCmp(a, a); rsx_assert(e == 0, "compare with itself");
  rsx_assert(BN_ISZERO(a) == (x == 0) && BN_ISONE(a) == (x == 1) && BN_ISTWO(a) == (x == 2) && BN_ISEVEN(a) == ((x & 1) == 0), "predicates");
  BnFree(a); BnFree(b);
#elif defined OPCMPW
  a = bnSym(1, W, 0, 1, "a"); x = bnVal(a); rsx_sym(&u, sizeof u, "u");
  e = BnCmpUInt(a, u); rsx_assert(e == (x < (big)(ubig)u ? -1 : x > (big)(ubig)u), "compare with a word");
  y = (bn_int_t)u; e = BnCmpInt(a, (bn_int_t)u); rsx_assert(e == (x < y ? -1 : x > y), "compare with a signed word");
  bnSame(a, x, "operand untouched"); BnFree(a);
#elif defined OPWORD
  a = bnSym(1, W, W + 1, 1, "a"); x = bnVal(a); rsx_sym(&u, sizeof u, "u");
  switch (rsx_pick(0, 3, "op")) {
  case 0: e = BnAddUInt(a, u); y = x + (big)(ubig)u; break;
  case 1: e = BnSubUInt(a, u); y = x - (big)(ubig)u; break;
  case 2: e = BnAddInt(a, (bn_int_t)u); y = x + (big)(bn_int_t)u; break;
  default: e = BnSubInt(a, (bn_int_t)u); y = x - (big)(bn_int_t)u; break;
  }
  rsx_assert(e == RA_ERR_SUCCESS, "succeeds"); bnIs(a, y, "sum with a word"); BnFree(a);
#elif defined OPINPLACE
  a = bnSym(1, W, W + 1, 0, "a"); b = bnSym(1, W, W, 0, "b"); x = bnVal(a); y = bnVal(b);
  if (rsx_pick(0, 1, "sub")) { rsx_assume(x >= y); e = _BnSubR(a, b); rsx_assert(e == RA_ERR_SUCCESS, "succeeds"); bnIs(a, x - y, "difference in place"); }
  else { e = _BnAddR(a, b); rsx_assert(e == RA_ERR_SUCCESS, "succeeds"); bnIs(a, x + y, "sum in place"); }
  bnSame(b, y, "operand untouched");
  _BnInvert(a); _BnInvert(b); bnSame(b, -y, "negation"); BnFree(a); BnFree(b);
#endif
}
