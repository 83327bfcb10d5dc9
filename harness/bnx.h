/* Signed big numbers against plain wide integers. MAXW: words of the widest value that occurs. */
#ifndef BNX_H
#define BNX_H
#include "racrypt.h"
#include "rsx.h"
#ifndef VW
#define VW 8
#endif
typedef signed _BitInt(VW * BN_WORD_BIT) big;
typedef unsigned _BitInt(VW * BN_WORD_BIT) ubig;
typedef struct RaBigNumber BN;
/* any normalised number of lo..hi words in a block of cap words (at least two, as the library allocates) */
static BN *bnSym(int lo, int hi, int cap, int withSign, const char *name) {
  int n = rsx_pick(lo, hi, "words"), i; BN *b = BnNewW(cap < n ? n : cap); rsx_assert(b != NULL, "new");
  for (i = 0; i < n; i++) rsx_sym(&b->data[i], BN_WORD_BYTE, name);
  if (n > 1) rsx_assume(b->data[n - 1] != 0);
  b->length = n; b->sign = withSign ? rsx_pick(0, 1, "sign") : 0;
  return b;
}
/* replaces every word of b but one (or all, with all) by one of the first n edge patterns */
static void bnEdge(BN *b, int all, int n) {
  static const bn_uint_t E[6] = { ~(bn_uint_t)0, (bn_uint_t)1 << (BN_WORD_BIT - 1), 0, 1, ((bn_uint_t)1 << (BN_WORD_BIT - 1)) - 1, ~(bn_uint_t)1 };
  int k = all ? -1 : rsx_pick(0, b->length - 1, "free"), i;
  for (i = 0; i < b->length; i++) if (i != k) { int top = i == b->length - 1 && i > 0; b->data[i] = E[rsx_pick(0, top && n > 2 ? n - 2 : n - 1, "edge")]; if (top) rsx_assume(b->data[i] != 0); }
}
static BN *bnRoom(int cap) { BN *b = BnNewW(cap); rsx_assert(b != NULL, "new"); rsx_sym(&b->data[0], BN_WORD_BYTE, "old"); b->sign = rsx_pick(0, 1, "oldsign"); return b; }
static ubig bnMag(BN *b) { ubig v = 0; int i; for (i = b->length - 1; i >= 0; i--) v = v << BN_WORD_BIT | b->data[i]; return v; }
static big bnVal(BN *b) { ubig m = bnMag(b); return b->sign ? -(big)m : (big)m; }
static void bnOk(BN *b) {
  rsx_assert(b->length >= 1 && b->length <= b->max_length, "length within the capacity");
  rsx_assert(b->sign == 0 || b->sign == 1, "sign is 0 or 1");
  if (b->length > 1) rsx_assert(b->data[b->length - 1] != 0, "normalised");
}
static void bnIs(BN *b, big want, const char *what) { bnOk(b); rsx_assert(bnVal(b) == want, what); rsx_observe(b->data, b->length * BN_WORD_BYTE, "r"); }
static void bnSame(BN *b, big want, const char *what) { rsx_assert(bnVal(b) == want, what); }
#endif
