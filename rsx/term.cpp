#include "term.h"
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstring>
#include <map>
#include <unordered_set>
#include <llvm/ADT/SmallString.h>

const char *opname[] = {"const", "var", "lin", "mul", "udiv", "urem", "and", "or", "xor", "shl", "lshr", "ashr",
                        "concat", "extract", "sext", "ite", "eq", "ult", "slt", "select", "arr", "fp"};
std::vector<VarInfo> g_vars;
uint64_t g_nterms = 0, g_rewrites = 0;

static inline size_t mix(size_t h, size_t v) { return (h ^ (v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2))) * 0xff51afd7ed558ccdULL; }
static size_t apHash(const APInt &v) {
  size_t h = v.getBitWidth();
  for (unsigned i = 0; i < v.getNumWords(); i++) h = mix(h, v.getRawData()[i]);
  return h;
}
struct TH {
  size_t operator()(const Term *t) const {
    size_t h = t->op * 1315423911u + t->w * 2654435761u + t->a;
    for (auto k : t->k) h = mix(h, k->id);
    for (auto &c : t->c) h = mix(h, apHash(c));
    return h;
  }
};
struct TE {
  bool operator()(const Term *x, const Term *y) const {
    if (x->op != y->op || x->w != y->w || x->a != y->a || x->k != y->k || x->c.size() != y->c.size()) return false;
    for (size_t i = 0; i < x->c.size(); i++)
      if (x->c[i].getBitWidth() != y->c[i].getBitWidth() || x->c[i] != y->c[i]) return false;
    return true;
  }
};
static std::unordered_set<Term *, TH, TE> table;

static Term *intern(Op op, uint32_t w, uint32_t a, TV k, std::vector<APInt> c = {}) {
  static Term probe;
  probe.op = op; probe.w = w; probe.a = a; probe.k = std::move(k); probe.c = std::move(c);
  auto it = table.find(&probe);
  if (it != table.end()) return *it;
  Term *t = new Term;
  t->op = op; t->w = w; t->a = a; t->k = std::move(probe.k); t->c = std::move(probe.c);
  t->id = (uint32_t)g_nterms++;
  table.insert(t);
  return t;
}

Term *mkConst(const APInt &v) { return intern(T_CONST, v.getBitWidth(), 0, {}, {v}); }
Term *mkC(uint32_t w, uint64_t v) {
  static Term *bytes[256];
  if (w == 8) {
    Term *&b = bytes[v & 255];
    if (!b) b = mkConst(APInt(8, v & 255));
    return b;
  }
  return mkConst(APInt(w, v));
}
Term *mkVar(uint32_t w, const std::string &name) {
  uint32_t n = g_vars.size();
  Term *t = intern(T_VAR, w, n, {});
  g_vars.push_back({name, w, t});
  return t;
}

Term *mkLin(uint32_t w, APInt c, std::vector<std::pair<Term *, APInt>> kids) {
  // flatten nested sums, merge equal kids
  std::vector<std::pair<Term *, APInt>> flat;
  flat.reserve(kids.size() + 4);
  for (auto &p : kids) {
    if (p.second.isZero()) continue;
    Term *t = p.first;
    if (t->isConst()) { c += t->cv() * p.second; continue; }
    if (t->op == T_LIN) {
      c += t->c[0] * p.second;
      for (size_t i = 0; i < t->k.size(); i++) flat.push_back({t->k[i], t->c[i + 1] * p.second});
    } else if (t->op == T_XOR && t->k.size() == 2 && t->k[0]->isOnes()) {  // ~x = -1 - x
      APInt m = -p.second; c += m; flat.push_back({t->k[1], m});
    } else if (t->op == T_CONCAT && std::any_of(t->k.begin(), t->k.end(), [](Term *q) { return q->isConst() && !q->isZero(); })) {   // constant pieces join the constant
      TV q; uint32_t o = 0;
      for (auto x : t->k) { if (x->isConst()) { c += x->cv().zext(w).shl(o) * p.second; x = mkC(x->w, 0); } q.push_back(x); o += x->w; }
      t = mkConcat(q);
      if (t->isConst()) c += t->cv() * p.second; else flat.push_back({t, p.second});
    } else flat.push_back(p);
  }
  std::sort(flat.begin(), flat.end(), [](auto &x, auto &y) { return x.first->id < y.first->id; });
  std::vector<std::pair<Term *, APInt>> out;
  for (auto &p : flat) {
    if (!out.empty() && out.back().first == p.first) out.back().second += p.second;
    else { if (!out.empty() && out.back().second.isZero()) out.pop_back(); out.push_back(p); }
  }
  if (!out.empty() && out.back().second.isZero()) out.pop_back();
  if (out.empty()) return mkConst(c);
  if (out.size() == 1 && c.isZero() && out[0].second.isOne()) return out[0].first;
  if (w == 1) {
    TV k; for (auto &p : out) k.push_back(p.first);
    k.push_back(mkConst(c));
    return mkBitN(T_XOR, k);
  }
  if (out.size() == 1 && c.isZero() && out[0].second.isPowerOf2()) {
    uint32_t s = out[0].second.logBase2();
    return mkConcat({mkC(s, 0), mkExtract(out[0].first, 0, w - s)});
  }
  if (out.size() == 1 && c.isAllOnes() && out[0].second.isAllOnes()) return mkNot(out[0].first);
  TV k; std::vector<APInt> cs{c};
  for (auto &p : out) { k.push_back(p.first); cs.push_back(p.second); }
  // a sum of bit-disjoint parts is a concatenation
  if (out.size() <= 16 && (out.size() > 1 || !c.isZero())) {
    struct Part { uint32_t lo, n; Term *t; };
    std::vector<Part> ps; bool ok = true; uint64_t total = 0;
    for (auto &p : out) {
      if (!p.second.isPowerOf2() || p.second.isNegative()) { ok = false; break; }
      uint32_t sh = p.second.logBase2(); Term *t = p.first;
      if (t->op == T_CONCAT) {
        uint32_t o = 0; for (auto q : t->k) { if (!q->isZero()) ps.push_back({sh + o, q->w, q}); o += q->w; }
      } else { ps.push_back({sh, t->w, t}); }
    }
    if (ok) {
      for (auto &p : ps) { if (p.lo >= w) { p.n = 0; continue; } if (p.lo + p.n > w) p.n = w - p.lo; total += p.n; }
      if (total > w) ok = false;
    }
    if (ok) {
      // constant bits: one part per run of ones
      for (uint32_t i = 0; i < w; i++) if (c[i]) { uint32_t j = i; while (j < w && c[j]) j++; ps.push_back({i, j - i, nullptr}); i = j; }
      std::sort(ps.begin(), ps.end(), [](const Part &x, const Part &y) { return x.lo < y.lo; });
      uint32_t pos = 0; TV parts;
      for (auto &p : ps) {
        if (!p.n) continue;
        if (p.lo < pos) { ok = false; break; }
        if (p.lo > pos) parts.push_back(mkC(p.lo - pos, 0));
        parts.push_back(p.t ? mkExtract(p.t, 0, p.n) : mkConst(APInt::getAllOnes(p.n)));
        pos = p.lo + p.n;
      }
      if (ok) { if (pos < w) parts.push_back(mkC(w - pos, 0)); return mkConcat(parts); }
    }
  }
  return intern(T_LIN, w, 0, k, cs);
}
Term *mkAdd(Term *a, Term *b) {
  if (a->isConst() && b->isConst()) return mkConst(a->cv() + b->cv());
  if (a->isZero()) return b;
  if (b->isZero()) return a;
  APInt one(a->w, 1);
  return mkLin(a->w, APInt(a->w, 0), {{a, one}, {b, one}});
}
Term *mkSub(Term *a, Term *b) {
  if (b->isZero()) return a;
  APInt one(a->w, 1);
  return mkLin(a->w, APInt(a->w, 0), {{a, one}, {b, -one}});
}
Term *mkNeg(Term *a) { return mkLin(a->w, APInt(a->w, 0), {{a, APInt::getAllOnes(a->w)}}); }
Term *mkMul(Term *a, Term *b) {
  if (a->isConst()) std::swap(a, b);
  if (b->isConst()) {
    if (a->isConst()) return mkConst(a->cv() * b->cv());
    return mkLin(a->w, APInt(a->w, 0), {{a, b->cv()}});
  }
  if (a->w == 1) return mkAnd(a, b);
  // (bool zero-extended) * x -> ite
  for (int s = 0; s < 2; s++) {
    if (a->op == T_CONCAT && a->k.size() == 2 && a->k[0]->w == 1 && a->k[1]->isZero()) return mkIte(a->k[0], b, mkC(a->w, 0));
    std::swap(a, b);
  }
  if (a->id > b->id) std::swap(a, b);
  return intern(T_MUL, a->w, 0, {a, b});
}
Term *mkUDiv(Term *a, Term *b) {
  if (b->isConst()) {
    if (b->isZero()) return mkConst(APInt::getAllOnes(a->w));
    if (a->isConst()) return mkConst(a->cv().udiv(b->cv()));
    if (b->cv().isPowerOf2()) return mkLShr(a, mkC(a->w, b->cv().logBase2()));
  }
  APInt lo, hi; uBounds(a, lo, hi);
  APInt bl, bh; uBounds(b, bl, bh);
  if (hi.ult(bl)) return mkC(a->w, 0);
  // narrow
  unsigned n = std::max(std::max(hi.getActiveBits(), bh.getActiveBits()), 1u);
  if (n < a->w) return mkZExt(mkUDiv(mkExtract(a, 0, n), mkExtract(b, 0, n)), a->w);
  return intern(T_UDIV, a->w, 0, {a, b});
}
Term *mkURem(Term *a, Term *b) {
  if (b->isConst()) {
    if (b->isZero()) return a;
    if (a->isConst()) return mkConst(a->cv().urem(b->cv()));
    if (b->cv().isPowerOf2()) return mkAnd(a, mkConst(b->cv() - 1));
  }
  APInt lo, hi; uBounds(a, lo, hi);
  APInt bl, bh; uBounds(b, bl, bh);
  if (hi.ult(bl)) return a;
  unsigned n = std::max(std::max(hi.getActiveBits(), bh.getActiveBits()), 1u);
  if (n < a->w) return mkZExt(mkURem(mkExtract(a, 0, n), mkExtract(b, 0, n)), a->w);
  return intern(T_UREM, a->w, 0, {a, b});
}
static Term *sgn(Term *a) { return mkExtract(a, a->w - 1, 1); }
static Term *absT(Term *a) { return mkIte(sgn(a), mkNeg(a), a); }
Term *mkSDiv(Term *a, Term *b) {
  Term *q = mkUDiv(absT(a), absT(b));
  return mkIte(mkXor(sgn(a), sgn(b)), mkNeg(q), q);
}
Term *mkSRem(Term *a, Term *b) {
  Term *r = mkURem(absT(a), absT(b));
  return mkIte(sgn(a), mkNeg(r), r);
}

// ---- bitwise n-ary ----
static bool hasConstPiece(Term *t) {
  if (t->op != T_CONCAT) return false;
  for (auto k : t->k) if (k->isConst()) return true;
  return false;
}
Term *mkBitN(Op op, TV in) {
  uint32_t w = in[0]->w;
  TV flat; APInt c = op == T_AND ? APInt::getAllOnes(w) : APInt(w, 0);
  std::function<void(Term *)> add = [&](Term *t) {
    if (t->isConst()) {
      if (op == T_AND) c &= t->cv(); else if (op == T_OR) c |= t->cv(); else c ^= t->cv();
    } else if (t->op == op) for (auto k : t->k) add(k);
    else flat.push_back(t);
  };
  for (auto t : in) add(t);
  std::sort(flat.begin(), flat.end(), [](Term *x, Term *y) { return x->id < y->id; });
  TV k;
  for (auto t : flat) {
    if (!k.empty() && k.back() == t) { if (op == T_XOR) k.pop_back(); }
    else k.push_back(t);
  }
  if (op == T_AND && c.isZero()) return mkConst(c);
  if (op == T_OR && c.isAllOnes()) return mkConst(c);
  if (k.empty()) return mkConst(c);
  bool cneutral = op == T_AND ? c.isAllOnes() : c.isZero();
  if (cneutral && k.size() == 1) return k[0];
  // split along constant pieces (constants with contiguous zero/ones runs, or concats holding constants)
  bool split = false;
  std::vector<uint32_t> cuts;
  if (!cneutral && op != T_XOR) split = true;
  for (auto t : k) if (hasConstPiece(t)) split = true;
  if (!cneutral && op == T_XOR && !c.isAllOnes()) {
    // only split for xor constants when some concat is around
    bool any = false; for (auto t : k) any |= t->op == T_CONCAT;
    split |= any;
  }
  if (split && w > 1) {
    std::vector<bool> cutAt(w + 1, false);
    cutAt[0] = cutAt[w] = true;
    for (auto t : k) if (t->op == T_CONCAT && hasConstPiece(t)) { uint32_t o = 0; for (auto p : t->k) { if (p->isConst()) { cutAt[o] = cutAt[o + p->w] = true; } o += p->w; } }
    if (!cneutral && op != T_XOR)
      for (uint32_t i = 1; i < w; i++) if (c[i] != c[i - 1]) cutAt[i] = true;
    uint32_t ncuts = 0; for (uint32_t i = 1; i < w; i++) ncuts += cutAt[i];
    if (ncuts) {
      TV pieces; uint32_t lo = 0;
      for (uint32_t i = 1; i <= w; i++) if (cutAt[i]) {
        TV sub; for (auto t : k) sub.push_back(mkExtract(t, lo, i - lo));
        if (!cneutral) sub.push_back(mkConst(c.extractBits(i - lo, lo)));
        pieces.push_back(mkBitN(op, sub));
        lo = i;
      }
      return mkConcat(pieces);
    }
  }
  // complementary pairs on 1-bit and/or
  if (op != T_XOR) {
    for (auto t : k)
      if (t->op == T_XOR && t->k.size() == 2 && t->k[0]->isOnes() && std::binary_search(k.begin(), k.end(), t->k[1], [](Term *x, Term *y) { return x->id < y->id; }))
        return op == T_AND ? mkC(w, 0) : mkConst(APInt::getAllOnes(w));
  }
  // (b & c) op (~b & d), op in {or, xor}  ->  d ^ (b & (c ^ d))
  std::vector<size_t> ands;
  if (op != T_AND && w > 1) for (size_t i = 0; i < k.size(); i++) if (k[i]->op == T_AND) ands.push_back(i);
  if (ands.size() > 1 && ands.size() < 32) for (size_t i : ands) for (size_t j : ands) if (i != j) {
    Term *p = k[i], *q = k[j];
    for (auto nb : q->k) if (nb->op == T_XOR && nb->k.size() == 2 && nb->k[0]->isOnes()) for (auto bb : p->k) if (bb == nb->k[1]) {
      TV cs, ds; for (auto x : p->k) if (x != bb) cs.push_back(x); for (auto x : q->k) if (x != nb) ds.push_back(x);
      if (cs.empty() || ds.empty()) continue;
      Term *C = mkBitN(T_AND, cs), *D = mkBitN(T_AND, ds), *m = mkXor(D, mkAnd(bb, mkXor(C, D)));
      TV rest{m}; for (size_t l = 0; l < k.size(); l++) if (l != i && l != j) rest.push_back(k[l]);
      if (!cneutral) rest.push_back(mkConst(c));
      return mkBitN(op, rest);
    }
  }
  // majority: (x & (y ^ z)) ^ (y & z), (x & (y | z)) | (y & z), xy | xz | yz  ->  xy ^ xz ^ yz
  if (ands.size() > 1 && ands.size() < 32) {
    auto two = [](Term *t, Op o) { return t->op == o && t->k.size() == 2 && !t->k[0]->isConst(); };
    auto redo = [&](Term *x, Term *y, Term *z, std::vector<size_t> drop) {
      TV rest{mkBitN(T_XOR, {mkAnd(x, y), mkAnd(x, z), mkAnd(y, z)})};
      for (size_t l = 0; l < k.size(); l++) if (std::find(drop.begin(), drop.end(), l) == drop.end()) rest.push_back(k[l]);
      if (!cneutral) rest.push_back(mkConst(c));
      return mkBitN(op, rest);
    };
    for (size_t i : ands) for (size_t j : ands) if (i != j && two(k[i], T_AND) && two(k[j], T_AND)) {
      for (int s = 0; s < 2; s++) {
        Term *x = k[i]->k[s], *m = k[i]->k[1 - s], *y = k[j]->k[0], *z = k[j]->k[1];
        if ((two(m, T_XOR) || (op == T_OR && two(m, T_OR))) && ((m->k[0] == y && m->k[1] == z) || (m->k[0] == z && m->k[1] == y))) return redo(x, y, z, {i, j});
      }
      if (op == T_OR && i < j) for (size_t l : ands) if (l > j && two(k[l], T_AND)) {
        TV v; for (size_t q : {i, j, l}) for (auto x : k[q]->k) if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x);
        if (v.size() == 3 && k[i] != k[j] && k[j] != k[l]) return redo(v[0], v[1], v[2], {i, j, l});
      }
    }
  }
  if (!cneutral) k.insert(k.begin(), mkConst(c));
  // ~ite(c,k1,k2) with constants
  if (op == T_XOR && k.size() == 2 && k[0]->isConst() && k[1]->op == T_ITE && (k[1]->k[1]->isConst() || k[1]->k[2]->isConst()))
    return mkIte(k[1]->k[0], mkXor(k[0], k[1]->k[1]), mkXor(k[0], k[1]->k[2]));
  if (op == T_AND && w > 1 && k.size() == 2) {
    // sext(bool) & x -> ite
    for (int s = 0; s < 2; s++) if (k[s]->op == T_SEXT && k[s]->k[0]->w == 1) return mkIte(k[s]->k[0], k[1 - s], mkC(w, 0));
  }
  return intern(op, w, 0, k);
}
Term *mkAnd(Term *a, Term *b) { return mkBitN(T_AND, {a, b}); }
Term *mkOr(Term *a, Term *b) { return mkBitN(T_OR, {a, b}); }
Term *mkXor(Term *a, Term *b) { return mkBitN(T_XOR, {a, b}); }
Term *mkNot(Term *a) { return mkBitN(T_XOR, {a, mkConst(APInt::getAllOnes(a->w))}); }

Term *mkShl(Term *a, Term *b) {
  if (b->isConst()) {
    if (b->cv().uge(a->w)) return mkC(a->w, 0);
    uint32_t s = b->cv().getZExtValue();
    if (!s) return a;
    return mkConcat({mkC(s, 0), mkExtract(a, 0, a->w - s)});
  }
  if (a->isZero()) return a;
  return intern(T_SHL, a->w, 0, {a, b});
}
Term *mkLShr(Term *a, Term *b) {
  if (b->isConst()) {
    if (b->cv().uge(a->w)) return mkC(a->w, 0);
    uint32_t s = b->cv().getZExtValue();
    if (!s) return a;
    return mkConcat({mkExtract(a, s, a->w - s), mkC(s, 0)});
  }
  if (a->isZero()) return a;
  return intern(T_LSHR, a->w, 0, {a, b});
}
Term *mkAShr(Term *a, Term *b) {
  if (b->isConst()) {
    uint32_t s = b->cv().uge(a->w) ? a->w - 1 : b->cv().getZExtValue();
    if (!s) return a;
    return mkSExt(mkExtract(a, s, a->w - s), a->w);
  }
  if (a->isZero()) return a;
  return intern(T_ASHR, a->w, 0, {a, b});
}
Term *mkConcat(TV in) {
  TV k;
  std::function<void(Term *)> add = [&](Term *t) {
    if (t->w == 0) return;
    if (t->op == T_CONCAT) { for (auto p : t->k) add(p); return; }
    if (!k.empty()) {
      Term *b = k.back();
      if (b->isConst() && t->isConst()) { k.back() = mkConst(t->cv().concat(b->cv())); return; }
      // adjacent slices of the same term
      Term *bb = b->op == T_EXTRACT ? b->k[0] : b; uint32_t blo = b->op == T_EXTRACT ? b->a : 0;
      Term *tb = t->op == T_EXTRACT ? t->k[0] : t; uint32_t tlo = t->op == T_EXTRACT ? t->a : 0;
      if (bb == tb && tlo == blo + b->w && bb->w > b->w) { k.back() = mkExtract(bb, blo, b->w + t->w); return; }
      // sign-extension pieces
      if (b->op == T_ITE && t->op == T_ITE && b->k[0] == t->k[0] && b->k[1]->isConst() && b->k[2]->isConst() && t->k[1]->isConst() && t->k[2]->isConst()) {
        k.back() = mkIte(b->k[0], mkConst(t->k[1]->cv().concat(b->k[1]->cv())), mkConst(t->k[2]->cv().concat(b->k[2]->cv()))); return;
      }
    }
    k.push_back(t);
  };
  uint32_t w = 0;
  for (auto t : in) { w += t->w; add(t); }
  if (k.size() == 1) return k[0];
  return intern(T_CONCAT, w, 0, k);
}
static Term *mkExtract0(Term *a, uint32_t lo, uint32_t w);
static std::unordered_map<uint64_t, Term *> exMemo[1];
Term *mkExtract(Term *a, uint32_t lo, uint32_t w) {
  if (a->op == T_CONST || (lo == 0 && w == a->w) || w == 0 || lo >= 4096 || w >= 4096) return mkExtract0(a, lo, w);
  uint64_t key = ((uint64_t)a->id << 24) | (lo << 12) | w;
  auto &M = exMemo[0];
  auto it = M.find(key);
  if (it != M.end()) return it->second;
  Term *r = mkExtract0(a, lo, w);
  M[key] = r;
  return r;
}
static Term *mkExtract0(Term *a, uint32_t lo, uint32_t w) {
  if (w == 0) { static Term z; z.op = T_CONST; z.w = 0; z.id = 0xffffffff; z.a = 0; return &z; }
  assert(lo + w <= a->w);
  if (lo == 0 && w == a->w) return a;
  switch (a->op) {
  case T_CONST: return mkConst(a->cv().extractBits(w, lo));
  case T_EXTRACT: return mkExtract(a->k[0], a->a + lo, w);
  case T_CONCAT: {
    TV out; uint32_t o = 0;
    for (auto p : a->k) {
      uint32_t l = std::max(lo, o), h = std::min(lo + w, o + p->w);
      if (l < h) out.push_back(mkExtract(p, l - o, h - l));
      o += p->w;
    }
    return mkConcat(out);
  }
  case T_AND: case T_OR: case T_XOR: {
    TV k; for (auto p : a->k) k.push_back(mkExtract(p, lo, w));
    return mkBitN(a->op, k);
  }
  case T_ITE: return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
  case T_SEXT: {
    uint32_t sw = a->k[0]->w;
    if (lo + w <= sw) return mkExtract(a->k[0], lo, w);
    if (lo < sw) return mkSExt(mkExtract(a->k[0], lo, sw - lo), w);
    return mkSExt(mkExtract(a->k[0], sw - 1, 1), w);
  }
  case T_LIN:
    if (lo) {   // bits above the value's bound
      APInt l, h; uBounds(a, l, h); uint32_t n = h.getActiveBits();
      if (lo >= n) return mkC(w, 0);
      if (lo + w > n) return mkZExt(mkExtract(a, lo, n - lo), w);
    }
    if (lo) {   // low part of a sum of zero-extended words
      uint32_t m = 0;
      for (auto p : a->k) m = std::max(m, p->op == T_CONCAT && p->k.back()->isZero() ? p->w - p->k.back()->w : p->w);
      if (lo + w <= m && m < a->w) return mkExtract(mkExtract(a, 0, m), lo, w);
    }
    if (lo == 0 && w == 1 && a->w >= 2) {   // the lowest bit of a proper sum stays an extract of a 2-bit sum (the bit-level normal form names it)
      unsigned odd = 0; for (size_t i = 0; i < a->k.size(); i++) odd += a->c[i + 1][0];
      if (odd > 1) {
        Term *l2 = a->w == 2 ? a : mkExtract(a, 0, 2);
        if (l2->op == T_LIN) return intern(T_EXTRACT, 1, 0, {l2});
        return mkExtract(l2, 0, 1);
      }
    }
    if (lo == 0) {
      std::vector<std::pair<Term *, APInt>> kk;
      for (size_t i = 0; i < a->k.size(); i++) kk.push_back({mkExtract(a->k[i], 0, w), a->c[i + 1].trunc(w)});
      return mkLin(w, a->c[0].trunc(w), kk);
    }
    break;
  case T_MUL:
    if (lo == 0) return mkMul(mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
    break;
  case T_SELECT: {
    Term *arr = a->k[0];
    bool allc = true; for (auto e : arr->k) if (!e->isConst()) { allc = false; break; }
    if (allc) {
      static std::unordered_map<uint64_t, Term *> cache;
      uint64_t key = ((uint64_t)arr->id << 24) | (lo << 12) | w;
      Term *&na = cache[key];
      if (!na) { TV e; for (auto x : arr->k) e.push_back(mkExtract(x, lo, w)); na = mkArr(e); }
      return mkSelect(na, a->k[1]);
    }
    break;
  }
  default: break;
  }
  return intern(T_EXTRACT, w, lo, {a});
}
Term *mkTrunc(Term *a, uint32_t w) { return mkExtract(a, 0, w); }
Term *mkZExt(Term *a, uint32_t w) { return w == a->w ? a : mkConcat({a, mkC(w - a->w, 0)}); }
Term *mkSExt(Term *a, uint32_t w) {
  if (w == a->w) return a;
  if (a->isConst()) return mkConst(a->cv().sext(w));
  if (a->op == T_CONCAT && a->k.back()->isConst() && !a->k.back()->cv().isNegative()) return mkZExt(a, w);
  if (a->op == T_SEXT) return mkSExt(a->k[0], w);
  if (a->op == T_ITE && (a->k[1]->isConst() || a->k[2]->isConst())) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
  return intern(T_SEXT, w, 0, {a});
}
Term *mkIte(Term *c, Term *a, Term *b) {
  if (c->isConst()) return c->cv().isOne() ? a : b;
  if (a == b) return a;
  if (c->op == T_XOR && c->k.size() == 2 && c->k[0]->isOnes()) return mkIte(c->k[1], b, a);
  if (a->w == 1) {
    if (a->isConst() && b->isConst()) return a->cv().isOne() ? c : mkNot(c);
    if (a->isConst()) return a->cv().isOne() ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isConst()) return b->cv().isOne() ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
  }
  if (a->op == T_ITE && a->k[0] == c) a = a->k[1];
  if (b->op == T_ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  // common constant pieces of two concats / constants
  if ((a->op == T_CONCAT || a->isConst()) && (b->op == T_CONCAT || b->isConst()) && !(a->isConst() && b->isConst())) {
    std::vector<bool> cut(a->w + 1, false); cut[0] = cut[a->w] = true;
    for (Term *t : {a, b}) if (t->op == T_CONCAT) { uint32_t o = 0; for (auto p : t->k) { cut[o] = true; o += p->w; } }
    bool gain = false; uint32_t lo = 0; TV out;
    std::vector<std::pair<Term *, Term *>> ps;
    for (uint32_t i = 1; i <= a->w; i++) if (cut[i]) {
      Term *x = mkExtract(a, lo, i - lo), *y = mkExtract(b, lo, i - lo);
      if (x == y) gain = true;
      ps.push_back({x, y}); lo = i;
    }
    if (gain) { for (auto &p : ps) out.push_back(mkIte(c, p.first, p.second)); return mkConcat(out); }
  }
  if (a->isConst() && b->isConst() && a->w > 1) {
    // bool to int: concat(c, 0)
    if (b->isZero() && a->cv().isOne()) return mkZExt(c, a->w);
    if (a->isZero() && b->cv().isOne()) return mkZExt(mkNot(c), a->w);
    if (b->isZero() && a->isOnes()) return mkSExt(c, a->w);
    if (a->isZero() && b->isOnes()) return mkSExt(mkNot(c), a->w);
  }
  return intern(T_ITE, a->w, 0, {c, a, b});
}
static APInt inv2k(const APInt &a) {  // inverse of an odd number mod 2^w
  APInt x = a; unsigned w = a.getBitWidth();
  for (unsigned n = 3; n < w; n *= 2) x = x * (APInt(w, 2) - a * x);
  return x;
}
Term *mkEq(Term *a, Term *b) {
  if (a == b) return mkC(1, 1);
  if (a->isConst() && b->isConst()) return mkC(1, a->cv() == b->cv());
  if (a->w == 1) return mkNot(mkXor(a, b));
  if (a->isConst()) std::swap(a, b);
  if (b->isConst()) {
    if (a->op == T_ITE) {
      Term *x = a->k[1], *y = a->k[2];
      if (x->isConst() || y->isConst()) {
        Term *ex = mkEq(x, b), *ey = mkEq(y, b);
        return mkIte(a->k[0], ex, ey);
      }
    }
    if (a->op == T_CONCAT) {
      Term *r = mkC(1, 1); uint32_t o = 0;
      for (auto p : a->k) { r = mkAnd(r, mkEq(p, mkConst(b->cv().extractBits(p->w, o)))); o += p->w; if (r->isZero()) return r; }
      return r;
    }
    if (a->op == T_SEXT) {
      uint32_t sw = a->k[0]->w;
      APInt lowv = b->cv().trunc(sw);
      if (lowv.sext(a->w) != b->cv()) return mkC(1, 0);
      return mkEq(a->k[0], mkConst(lowv));
    }
    if (a->op == T_XOR && a->k[0]->isConst()) {
      TV r(a->k.begin() + 1, a->k.end());
      return mkEq(mkBitN(T_XOR, r), mkConst(a->k[0]->cv() ^ b->cv()));
    }
    if (a->op == T_LIN) {
      if (!a->c[0].isZero()) {
        std::vector<std::pair<Term *, APInt>> kk;
        for (size_t i = 0; i < a->k.size(); i++) kk.push_back({a->k[i], a->c[i + 1]});
        return mkEq(mkLin(a->w, APInt(a->w, 0), kk), mkConst(b->cv() - a->c[0]));
      }
      if (a->k.size() == 1 && a->c[1][0]) {  // odd coefficient: invertible
        APInt inv = inv2k(a->c[1]);
        return mkEq(a->k[0], mkConst(b->cv() * inv));
      }
      if (a->k.size() == 2 && b->isZero()) {
        if (a->c[1].isOne() && a->c[2].isAllOnes()) return mkEq(a->k[0], a->k[1]);
        if (a->c[2].isOne() && a->c[1].isAllOnes()) return mkEq(a->k[0], a->k[1]);
      }
    }
    if (a->op == T_SELECT && a->k[0]->k.size() <= 16) {}
    APInt lo, hi; uBounds(a, lo, hi);
    if (b->cv().ult(lo) || b->cv().ugt(hi)) return mkC(1, 0);
  } else {
    if (a->op == T_CONCAT && b->op == T_CONCAT && a->k.size() == b->k.size()) {
      bool same = true; for (size_t i = 0; i < a->k.size(); i++) same &= a->k[i]->w == b->k[i]->w;
      if (same) { Term *r = mkC(1, 1); for (size_t i = 0; i < a->k.size(); i++) r = mkAnd(r, mkEq(a->k[i], b->k[i])); return r; }
    }
    // strip common zero-extension
    APInt l1, h1, l2, h2; uBounds(a, l1, h1); uBounds(b, l2, h2);
    if (h1.ult(l2) || h2.ult(l1)) return mkC(1, 0);
    unsigned n = std::max(std::max(h1.getActiveBits(), h2.getActiveBits()), 1u);
    if (n < a->w) return mkEq(mkExtract(a, 0, n), mkExtract(b, 0, n));
  }
  if (a->id > b->id) std::swap(a, b);
  return intern(T_EQ, 1, 0, {a, b});
}
Term *mkUlt(Term *a, Term *b) {
  if (a == b) return mkC(1, 0);
  if (a->isConst() && b->isConst()) return mkC(1, a->cv().ult(b->cv()));
  if (b->isZero()) return mkC(1, 0);
  if (b->isC(1)) return mkEq(a, mkC(a->w, 0));
  if (a->isOnes()) return mkC(1, 0);
  if (a->isZero()) return mkNot(mkEq(b, a));
  if (a->w == 1) return mkAnd(mkNot(a), b);
  APInt l1, h1, l2, h2; uBounds(a, l1, h1); uBounds(b, l2, h2);
  if (h1.ult(l2)) return mkC(1, 1);
  if (l1.uge(h2)) return mkC(1, 0);
  unsigned n = std::max(std::max(h1.getActiveBits(), h2.getActiveBits()), 1u);
  if (n < a->w) return mkUlt(mkExtract(a, 0, n), mkExtract(b, 0, n));
  if (a->op == T_CONCAT && b->op == T_CONCAT && a->k.back() == b->k.back()) { unsigned m = a->w - a->k.back()->w; return mkUlt(mkExtract(a, 0, m), mkExtract(b, 0, m)); }
  if (b->isConst() && a->op == T_ITE && (a->k[1]->isConst() || a->k[2]->isConst())) return mkIte(a->k[0], mkUlt(a->k[1], b), mkUlt(a->k[2], b));
  if (a->isConst() && b->op == T_ITE && (b->k[1]->isConst() || b->k[2]->isConst())) return mkIte(b->k[0], mkUlt(a, b->k[1]), mkUlt(a, b->k[2]));
  return intern(T_ULT, 1, 0, {a, b});
}
Term *mkUle(Term *a, Term *b) { return mkNot(mkUlt(b, a)); }
Term *mkSlt(Term *a, Term *b) {
  if (a == b) return mkC(1, 0);
  if (a->isConst() && b->isConst()) return mkC(1, a->cv().slt(b->cv()));
  if (b->isZero()) return sgn(a);
  APInt l1, h1, l2, h2; uBounds(a, l1, h1); uBounds(b, l2, h2);
  // both in the same sign half: unsigned compare
  bool a0 = !h1.isNegative(), b0 = !h2.isNegative();
  bool a1 = l1.isNegative(), b1 = l2.isNegative();
  if ((a0 && b0) || (a1 && b1)) return mkUlt(a, b);
  if (a0 && b1) return mkC(1, 0);
  if (a1 && b0) return mkC(1, 1);
  if (b->isConst() && a->op == T_ITE && (a->k[1]->isConst() || a->k[2]->isConst())) return mkIte(a->k[0], mkSlt(a->k[1], b), mkSlt(a->k[2], b));
  if (a->isConst() && b->op == T_ITE && (b->k[1]->isConst() || b->k[2]->isConst())) return mkIte(b->k[0], mkSlt(a, b->k[1]), mkSlt(a, b->k[2]));
  return intern(T_SLT, 1, 0, {a, b});
}
Term *mkSle(Term *a, Term *b) { return mkNot(mkSlt(b, a)); }
Term *mkArr(const TV &e) { return intern(T_ARR, e[0]->w, 0, e); }
Term *mkSelect(Term *arr, Term *idx) {
  if (idx->isConst()) {
    uint64_t i = idx->cv().getLimitedValue();
    return i < arr->k.size() ? arr->k[i] : arr->k[0];
  }
  Term *f = arr->k[0]; bool same = true;
  for (auto e : arr->k) if (e != f) { same = false; break; }
  if (same) return f;
  unsigned n = 1; while ((1ull << n) < arr->k.size()) n++;
  if (idx->w > n) idx = mkExtract(idx, 0, n);
  else if (idx->w < n) {
    if ((1ull << idx->w) < arr->k.size()) { TV e(arr->k.begin(), arr->k.begin() + (1ull << idx->w)); return mkSelect(mkArr(e), idx); }
  }
  if (idx->isConst()) return mkSelect(arr, idx);
  if (arr->k.size() == (1ull << idx->w) && f->w == idx->w) {
    bool ident = true;
    for (size_t i = 0; i < arr->k.size() && ident; i++) ident = arr->k[i]->isC(i);
    if (ident) return idx;
  }
  // entry j is read only where idx == j: entries conditional on idx are decided (store forwarding)
  TV e2; bool ch = false;
  for (size_t j = 0; j < arr->k.size(); j++) {
    Term *e = arr->k[j];
    while (e->op == T_ITE && e->k[0]->op == T_EQ) {
      Term *x = e->k[0]->k[0], *y = e->k[0]->k[1]; if (y->isConst()) std::swap(x, y);
      if (!x->isConst() || y != idx) break;
      e = x->cv().getLimitedValue() == j ? e->k[1] : e->k[2];
    }
    if (e != arr->k[j]) { if (!ch) { e2 = arr->k; ch = true; } e2[j] = e; }
  }
  if (ch) return mkSelect(mkArr(e2), idx);
  return intern(T_SELECT, arr->w, 0, {arr, idx});
}
Term *mkFP(uint32_t fop, uint32_t w, const TV &k) {
  bool allc = true; std::vector<APInt> v;
  for (auto t : k) { if (!t->isConst()) allc = false; else v.push_back(t->cv()); }
  if (allc) return mkConst(evalFP(fop, w, v));
  return intern(T_FP, w, fop, k);
}
static double asD(const APInt &v) { uint64_t x = v.getZExtValue(); if (v.getBitWidth() == 32) { uint32_t y = x; float f; memcpy(&f, &y, 4); return f; } double d; memcpy(&d, &x, 8); return d; }
static APInt fromD(double d, uint32_t w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return APInt(32, x); } uint64_t x; memcpy(&x, &d, 8); return APInt(64, x); }
APInt evalFP(uint32_t fop, uint32_t w, const std::vector<APInt> &k) {
  switch (fop) {
  case FP_ADD: if (w == 32) return fromD((float)asD(k[0]) + (float)asD(k[1]), 32); return fromD(asD(k[0]) + asD(k[1]), w);
  case FP_SUB: if (w == 32) return fromD((float)asD(k[0]) - (float)asD(k[1]), 32); return fromD(asD(k[0]) - asD(k[1]), w);
  case FP_MUL: if (w == 32) return fromD((float)asD(k[0]) * (float)asD(k[1]), 32); return fromD(asD(k[0]) * asD(k[1]), w);
  case FP_DIV: if (w == 32) return fromD((float)asD(k[0]) / (float)asD(k[1]), 32); return fromD(asD(k[0]) / asD(k[1]), w);
  case FP_UITOFP: return w == 32 ? fromD((float)k[0].getZExtValue(), 32) : fromD((double)k[0].getZExtValue(), 64);
  case FP_SITOFP: return w == 32 ? fromD((float)k[0].getSExtValue(), 32) : fromD((double)k[0].getSExtValue(), 64);
  case FP_FPTOUI: { double d = asD(k[0]); return APInt(64, (uint64_t)d).trunc(std::min(w, 64u)).zext(w); }
  case FP_FPTOSI: { double d = asD(k[0]); return APInt(64, (uint64_t)(int64_t)d).trunc(std::min(w, 64u)); }
  case FP_OLT: return APInt(1, asD(k[0]) < asD(k[1]));
  case FP_OLE: return APInt(1, asD(k[0]) <= asD(k[1]));
  case FP_OEQ: return APInt(1, asD(k[0]) == asD(k[1]));
  case FP_UNO: return APInt(1, std::isnan(asD(k[0])) || std::isnan(asD(k[1])));
  case FP_EXT: return fromD(asD(k[0]), 64);
  case FP_TRUNC: return fromD(asD(k[0]), 32);
  case FP_NEG: return fromD(-asD(k[0]), w);
  case FP_FLOOR: return fromD(floor(asD(k[0])), w);
  case FP_CEIL: return fromD(ceil(asD(k[0])), w);
  }
  return APInt(w, 0);
}

static void uBoundsRec(Term *t, APInt &lo, APInt &hi, int d) {
  lo = APInt(t->w, 0); hi = APInt::getAllOnes(t->w);
  switch (t->op) {
  case T_CONST: lo = hi = t->cv(); return;
  case T_CONCAT: {
    if (d <= 0) { if (t->k.back()->isConst()) { unsigned kw = t->k.back()->w; lo = t->k.back()->cv().zext(t->w).shl(t->w - kw); hi = lo | APInt::getLowBitsSet(t->w, t->w - kw); } return; }
    lo = APInt(t->w, 0); hi = APInt(t->w, 0); uint32_t o = 0;
    for (auto p : t->k) { APInt l, h; uBoundsRec(p, l, h, d - 1); lo |= l.zext(t->w).shl(o); hi |= h.zext(t->w).shl(o); o += p->w; }
    return;
  }
  case T_ITE: if (d > 0) { APInt l1, h1, l2, h2; uBoundsRec(t->k[1], l1, h1, d - 1); uBoundsRec(t->k[2], l2, h2, d - 1); lo = l1.ult(l2) ? l1 : l2; hi = h1.ugt(h2) ? h1 : h2; } return;
  case T_LIN: {
    if (d <= 0) return;
    // exact when no wrap possible, all coefs treated as unsigned or small negatives
    unsigned W = t->w + 72;
    APInt L = t->c[0].sext(W), H = L;
    if (t->k.size() > 16) return;
    for (size_t i = 0; i < t->k.size(); i++) {
      APInt l, h; uBoundsRec(t->k[i], l, h, d - 1);
      APInt cf = t->c[i + 1].sext(W);
      if (t->c[i + 1].getSignificantBits() + 2 > 64 && t->w > 64) return;
      APInt x = cf * l.zext(W), y = cf * h.zext(W);
      if (cf.isNegative()) std::swap(x, y);
      L += x; H += y;
    }
    // constant may be the unsigned reading
    for (int s = 0; s < 2; s++) {
      if (!L.isNegative() && H.getActiveBits() <= t->w) { lo = L.trunc(t->w); hi = H.trunc(t->w); return; }
      L += APInt(W, 1).shl(t->w); H += APInt(W, 1).shl(t->w);
    }
    return;
  }
  case T_AND: for (auto p : t->k) { APInt l, h; if (d > 0) { uBoundsRec(p, l, h, d - 1); if (h.ult(hi)) hi = h; } } return;
  case T_UREM: { APInt l, h, l2, h2; if (d <= 0) return; uBoundsRec(t->k[0], l, h, d - 1); uBoundsRec(t->k[1], l2, h2, d - 1); hi = h; if (!l2.isZero() && (h2 - 1).ult(hi)) hi = h2 - 1; return; }
  case T_UDIV: { APInt l, h; if (d <= 0) return; uBoundsRec(t->k[0], l, h, d - 1); APInt l2, h2; uBoundsRec(t->k[1], l2, h2, d - 1); if (!l2.isZero()) hi = h.udiv(l2); return; }
  case T_MUL: { if (d <= 0) return; APInt l, h, l2, h2; uBoundsRec(t->k[0], l, h, d - 1); uBoundsRec(t->k[1], l2, h2, d - 1);
    APInt P = h.zext(2 * t->w) * h2.zext(2 * t->w); if (P.getActiveBits() <= t->w) { hi = P.trunc(t->w); lo = l * l2; } return; }
  case T_LSHR: { if (d <= 0) return; APInt l, h; uBoundsRec(t->k[0], l, h, d - 1); hi = h; return; }
  case T_SELECT: {
    if (t->k[0]->k.size() > 1024) return;
    lo = APInt::getAllOnes(t->w); hi = APInt(t->w, 0);
    for (auto e : t->k[0]->k) { if (!e->isConst()) { lo = APInt(t->w, 0); hi = APInt::getAllOnes(t->w); return; } if (e->cv().ult(lo)) lo = e->cv(); if (e->cv().ugt(hi)) hi = e->cv(); }
    return;
  }
  default: return;
  }
}
void uBounds(Term *t, APInt &lo, APInt &hi) { uBoundsRec(t, lo, hi, 6); }

void linView(Term *t, APInt &c, std::vector<std::pair<Term *, APInt>> &out) {
  c = APInt(t->w, 0);
  std::function<void(Term *, APInt)> go = [&](Term *x, APInt cf) {
    if (x->isConst()) { c += x->cv() * cf; return; }
    if (x->op == T_LIN) { c += x->c[0] * cf; for (size_t i = 0; i < x->k.size(); i++) go(x->k[i], x->c[i + 1] * cf); return; }
    if (x->op == T_CONCAT && x->w == t->w) {
      uint32_t o = 0;
      for (auto p : x->k) {
        if (p->isConst()) c += p->cv().zext(x->w).shl(o) * cf;
        else out.push_back({p, APInt(x->w, 1).shl(o) * cf});
        o += p->w;
      }
      return;
    }
    out.push_back({x, cf});
  };
  go(t, APInt(t->w, 1));
}

// ---- evaluation ----
static APInt evalOp(Term *t, const std::function<const APInt &(Term *)> &E) {
  switch (t->op) {
  case T_LIN: { APInt s = t->c[0]; for (size_t i = 0; i < t->k.size(); i++) s += t->c[i + 1] * E(t->k[i]); return s; }
  case T_MUL: return E(t->k[0]) * E(t->k[1]);
  case T_UDIV: { APInt b = E(t->k[1]); return b.isZero() ? APInt::getAllOnes(t->w) : E(t->k[0]).udiv(b); }
  case T_UREM: { APInt b = E(t->k[1]); return b.isZero() ? E(t->k[0]) : E(t->k[0]).urem(b); }
  case T_AND: { APInt s = E(t->k[0]); for (size_t i = 1; i < t->k.size(); i++) s &= E(t->k[i]); return s; }
  case T_OR: { APInt s = E(t->k[0]); for (size_t i = 1; i < t->k.size(); i++) s |= E(t->k[i]); return s; }
  case T_XOR: { APInt s = E(t->k[0]); for (size_t i = 1; i < t->k.size(); i++) s ^= E(t->k[i]); return s; }
  case T_SHL: { APInt b = E(t->k[1]); return b.uge(t->w) ? APInt(t->w, 0) : E(t->k[0]).shl(b); }
  case T_LSHR: { APInt b = E(t->k[1]); return b.uge(t->w) ? APInt(t->w, 0) : E(t->k[0]).lshr(b); }
  case T_ASHR: { APInt b = E(t->k[1]); return E(t->k[0]).ashr(b.uge(t->w) ? APInt(t->w, t->w - 1) : b); }
  case T_CONCAT: { APInt s(t->w, 0); uint32_t o = 0; for (auto p : t->k) { s.insertBits(E(p), o); o += p->w; } return s; }
  case T_EXTRACT: return E(t->k[0]).extractBits(t->w, t->a);
  case T_SEXT: return E(t->k[0]).sext(t->w);
  case T_ITE: return E(t->k[0]).isOne() ? E(t->k[1]) : E(t->k[2]);
  case T_EQ: return APInt(1, E(t->k[0]) == E(t->k[1]));
  case T_ULT: return APInt(1, E(t->k[0]).ult(E(t->k[1])));
  case T_SLT: return APInt(1, E(t->k[0]).slt(E(t->k[1])));
  case T_SELECT: { uint64_t i = E(t->k[1]).getLimitedValue(); auto &e = t->k[0]->k; return E(i < e.size() ? e[i] : e[0]); }
  case T_FP: { std::vector<APInt> v; for (auto p : t->k) v.push_back(E(p)); return evalFP(t->a, t->w, v); }
  default: assert(0); return APInt(1, 0);
  }
}
const APInt &Model::eval(Term *root) {
  // iterative post-order to survive deep terms
  std::vector<Term *> st{root};
  std::function<const APInt &(Term *)> get = [&](Term *x) -> const APInt & { return x->op == T_CONST ? x->c[0] : cache.find(x)->second; };
  auto have = [&](Term *x) { return x->op == T_CONST || cache.count(x); };
  while (!st.empty()) {
    Term *t = st.back();
    if (have(t)) { st.pop_back(); continue; }
    if (t->op == T_VAR) { auto it = v.find(t->a); cache.emplace(t, it == v.end() ? APInt(t->w, 0) : it->second); st.pop_back(); continue; }
    bool ok = true;
    if (t->op == T_SELECT) {
      if (!have(t->k[1])) { st.push_back(t->k[1]); continue; }
      uint64_t i = get(t->k[1]).getLimitedValue(); auto &e = t->k[0]->k; Term *x = i < e.size() ? e[i] : e[0];
      if (!have(x)) { st.push_back(x); continue; }
    } else if (t->op == T_ITE) {
      if (!have(t->k[0])) { st.push_back(t->k[0]); continue; }
      Term *x = get(t->k[0]).isOne() ? t->k[1] : t->k[2];
      if (!have(x)) { st.push_back(x); continue; }
    } else for (auto p : t->k) if (!have(p)) { st.push_back(p); ok = false; }
    if (!ok) continue;
    APInt r = evalOp(t, get);
    cache.emplace(t, r);
    st.pop_back();
  }
  if (root->op == T_CONST) return root->c[0];
  return cache.find(root)->second;
}

// ---- variable supports ----
static std::vector<std::vector<uint32_t>> vsets{{}};
static std::map<std::vector<uint32_t>, int> vsetIds{{{}, 0}};
static std::unordered_map<uint64_t, int> vunion;
static int vu(int a, int b) {
  if (a == b || !b) return a;
  if (!a) return b;
  if (a > b) std::swap(a, b);
  uint64_t key = ((uint64_t)a << 32) | (uint32_t)b;
  auto it = vunion.find(key);
  if (it != vunion.end()) return it->second;
  std::vector<uint32_t> r;
  std::set_union(vsets[a].begin(), vsets[a].end(), vsets[b].begin(), vsets[b].end(), std::back_inserter(r));
  auto jt = vsetIds.find(r); int id;
  if (jt != vsetIds.end()) id = jt->second;
  else { id = vsets.size(); vsets.push_back(r); vsetIds[r] = id; }
  vunion[key] = id;
  return id;
}
int varSetId(Term *root) {
  std::vector<Term *> st{root};
  while (!st.empty()) {
    Term *t = st.back();
    if (t->vset >= 0) { st.pop_back(); continue; }
    if (t->op == T_CONST) { t->vset = 0; st.pop_back(); continue; }
    if (t->op == T_VAR) {
      std::vector<uint32_t> r{t->a};
      auto jt = vsetIds.find(r);
      if (jt != vsetIds.end()) t->vset = jt->second; else { t->vset = vsets.size(); vsetIds[r] = t->vset; vsets.push_back(r); }
      st.pop_back(); continue;
    }
    bool ok = true;
    for (auto p : t->k) if (p->vset < 0) { st.push_back(p); ok = false; }
    if (!ok) continue;
    int s = 0; for (auto p : t->k) s = vu(s, p->vset);
    t->vset = s; st.pop_back();
  }
  return root->vset;
}
const std::vector<uint32_t> &varSet(Term *t) { return vsets[varSetId(t)]; }

std::string termStr(Term *t, int d) {
  if (t->op == T_CONST) { llvm::SmallString<64> s; t->cv().toString(s, 16, false); return "0x" + std::string(s.begin(), s.end()) + ":" + std::to_string(t->w); }
  if (t->op == T_VAR) return g_vars[t->a].name;
  if (d <= 0) return "#" + std::to_string(t->id);
  std::string r = std::string("(") + opname[t->op];
  if (t->op == T_EXTRACT) r += "[" + std::to_string(t->a) + "+" + std::to_string(t->w) + "]";
  if (t->op == T_LIN) { llvm::SmallString<64> s; t->c[0].toString(s, 16, false); r += " 0x" + std::string(s.begin(), s.end()); }
  int n = 0;
  for (auto p : t->k) { if (n++ > 6) { r += " ..."; break; } r += " " + termStr(p, d - 1); }
  return r + ")";
}
APInt evalOpPub(Term *t, const std::function<const APInt &(Term *)> &E) { return evalOp(t, E); }
