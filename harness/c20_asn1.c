#include "racrypt.h"
#include "asn1.h"
#include "rsx.h"
static const uint8_t *D; static int L;
static int nodes;
/* every element inside its parent, in order */
static void walk(struct RaAsn1Node *n, int lo, int hi, int eoc, int depth) {
  rsx_assert(depth <= L, "bounded depth");
  for (; n->type != RA_ASN1_OBJ_NONE; n = n->next) {
    rsx_assert(++nodes <= L / 2, "no more elements than fit");
    rsx_assert(n->offset >= lo, "elements in order"); rsx_assert(n->dataOffset >= n->offset + 2, "content after the header"); rsx_assert(n->dataLength >= 0, "length is set");
    if (eoc && n->offset == hi) { rsx_assert(n->type == 0 && n->dataLength == 0 && n->dataOffset == hi + 2 && n->next->type == RA_ASN1_OBJ_NONE, "only an end marker follows the content"); return; }
    rsx_assert(n->dataOffset <= hi, "content starts inside the parent"); rsx_assert(n->dataLength <= hi - n->dataOffset, "content ends inside the parent");
    rsx_assert(n->type == D[n->offset], "tag");
    int inf = D[n->offset + 1] == 0x80, end = n->dataOffset + n->dataLength;
    if (!(n->type & 0x20)) rsx_assert(n->child->type == RA_ASN1_OBJ_NONE, "a primitive element has no children");
    walk(n->child, n->dataOffset, end, inf, depth + 1);
    lo = end + (inf ? 2 : 0);
  }
}
/* reference: is data[p..e) a sequence of well-formed elements (one-byte tags, definite lengths), at most depth levels below? */
static int wf(int p, int e, int depth) {
  while (p < e) {
    if (p + 2 > e || D[p] == 0) return 0;
    int tag = D[p], l = D[p + 1], q = p + 2; uint64_t len = l;
    if (l == 0x80 || l > 0x84) return 0;
    if (l > 0x80) { int k = rsx_concrete(l - 0x80); if (q + k > e) return 0; for (len = 0; k; k--) len = len << 8 | D[q++]; }
    if (len > (uint64_t)(e - q)) return 0;
    len = rsx_concrete(len);
    if (tag & 0x20) { if (depth == 0 || !wf(q, q + (int)len, depth - 1)) return 0; }
    p = q + (int)len;
  }
  return 1;
}
static struct RaAsn1Node *exact(struct RaAsn1Node *n, int p, int e) {
  while (p < e) {
    int l = D[p + 1], q = p + 2; uint64_t len = l;
    if (l > 0x80) { int k = rsx_concrete(l - 0x80); for (len = 0; k; k--) len = len << 8 | D[q++]; }
    len = rsx_concrete(len);
    rsx_assert(n->type != RA_ASN1_OBJ_NONE, "every element is listed");
    rsx_assert(n->type == D[p] && n->offset == p && n->dataOffset == q && n->dataLength == (int)len, "element has its tag, offsets and length");
    if (D[p] & 0x20) exact(n->child, q, q + (int)len); else rsx_assert(n->child->type == RA_ASN1_OBJ_NONE, "a primitive element has no children");
    n = n->next; p = q + (int)len;
  }
  rsx_assert(n->type == RA_ASN1_OBJ_NONE, "nothing but the elements is listed");
  return n;
}
void harness(void) {
  uint8_t *d; struct RaAsn1Ctx *c = NULL; struct RaAsn1Node *root = NULL; int r, i, k;
#if defined ANY
  L = rsx_pick(LO, HI, "length"); d = malloc(L ? L : 1); rsx_sym(d, L, "d");
#elif defined NEST   /* k nested sequences, an element after each level's inner sequence or not, before it or not */
  int a = rsx_pick(0, 1, "before"), b = rsx_pick(0, 1, "after"), in = rsx_pick(0, 1, "inner"), w = rsx_pick(0, 1, "longform"), p, q;
  k = rsx_pick(0, 12, "depth"); uint8_t t[256], s[256]; p = 0;
  if (in) { t[0] = 2; t[1] = 1; rsx_sym(t + 2, 1, "v"); p = 3; }
  for (i = 0; i < k; i++) {
    q = 0; if (a) { s[q++] = 5; s[q++] = 0; }
    s[q++] = 0x30; if (w || p > 127) s[q++] = 0x81; s[q++] = p; memcpy(s + q, t, p); q += p;
    if (b) { s[q++] = 4; s[q++] = 1; rsx_sym(s + q, 1, "w"); q++; }
    memcpy(t, s, q); p = q;
  }
  L = p; d = malloc(L ? L : 1); memcpy(d, t, L);
#else   /* a sequence of many primitive elements with any tags */
  k = rsx_pick(0, 32, "count"); L = 2 + 3 * k; d = malloc(L); d[0] = 0x31; d[1] = 3 * k;
  for (i = 0; i < k; i++) { rsx_sym(d + 2 + 3 * i, 1, "tag"); rsx_assume(d[2 + 3 * i] != 0); rsx_assume(!(d[2 + 3 * i] & 0x20)); d[3 + 3 * i] = 1; rsx_sym(d + 4 + 3 * i, 1, "v"); }
#endif
  D = d;
  r = RaAsn1CreateContext(d, L, &c);
  if (r != RA_ERR_SUCCESS) rsx_assert(c == NULL, "no context on failure");
  else { rsx_assert(c != NULL, "a context on success"); rsx_assert(RaAsn1GetRoot(c, &root) == RA_ERR_SUCCESS && root != NULL, "root"); walk(root, 0, L, 0, 0); }
  if (wf(0, L, 10)) { rsx_assert(r == RA_ERR_SUCCESS, "well-formed data is accepted"); exact(root, 0, L); rsx_mark("well-formed"); }
  RaAsn1DestroyContext(c); rsx_assert(rsx_live() == 1, "nothing leaked"); free(d);
}
