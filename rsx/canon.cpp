// Bit-level normal form.  Every bit of a term is written as an exclusive-or of atoms (GF(2)-linear form);
// atoms are variable bits, products of atoms, non-linear table functions of index bits (expressed in a
// basis per index), named larger sums, and opaque bits of arithmetic over normalised operands.
// Two terms with the same normal form are equal for all values.  Every literal made is checked against the
// concrete value of its term on 64 random assignments, and every decomposition of a lookup table over a
// basis is handed to z3 as a lemma, so that a defect here cannot silently accept.
#include "exec.h"
#include "pool.h"
#include <algorithm>
#include <cstring>
#include <map>

typedef uint32_t Lit;                 // set number * 2 + negated
typedef std::vector<uint32_t> Vec;
struct VH { size_t operator()(const Vec &v) const { size_t h = v.size(); for (auto x : v) h = (h ^ x) * 0x9fb21c651e98df25ULL, h ^= h >> 31; return h; } };
struct Atom { enum K { VAR, PROD, NAMED, BASIS, OPAQUE } k; Vec f; uint64_t lane; };
static std::vector<Atom> atoms;
static std::vector<Vec> sets{{}};
static std::vector<uint64_t> setLane{0};
static std::unordered_map<Vec, uint32_t, VH> setIds{{{}, 0}};
static std::unordered_map<Vec, uint32_t, VH> atomIds;      // key: kind + contents
static std::unordered_map<Vec, uint32_t, VH> wordIds;
static std::unordered_map<Term *, Vec> memo;
static bool g_canonBad = false;
size_t canonTerms() { return memo.size(); }

static uint32_t internSet(const Vec &v) {
  auto it = setIds.find(v); if (it != setIds.end()) return it->second;
  uint64_t l = 0; for (auto a : v) l ^= atoms[a].lane;
  uint32_t id = sets.size(); sets.push_back(v); setLane.push_back(l); setIds.emplace(v, id);
  return id;
}
static uint64_t laneOf(Lit l) { return setLane[l >> 1] ^ (l & 1 ? ~0ull : 0); }
static uint32_t mkAtom(Atom::K k, Vec f, uint64_t lane) {
  Vec key{(uint32_t)k}; key.insert(key.end(), f.begin(), f.end());
  auto it = atomIds.find(key); if (it != atomIds.end()) return it->second;
  uint32_t id = atoms.size(); atoms.push_back({k, std::move(f), lane}); atomIds.emplace(std::move(key), id);
  return id;
}
static Lit litAtom(uint32_t a) { return internSet({a}) << 1; }
static Lit xorLits(std::vector<Lit> &ls) {
  uint32_t neg = 0; 
  if (ls.size() == 2) {
    neg = (ls[0] ^ ls[1]) & 1; const Vec &a = sets[ls[0] >> 1], &b = sets[ls[1] >> 1];
    if (a.empty()) return (ls[1] & ~1u) | neg; if (b.empty()) return (ls[0] & ~1u) | neg;
    Vec r; r.reserve(a.size() + b.size()); std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r));
    return internSet(r) << 1 | neg;
  }
  Vec all; for (auto l : ls) { neg ^= l & 1; auto &s = sets[l >> 1]; all.insert(all.end(), s.begin(), s.end()); }
  std::sort(all.begin(), all.end()); Vec r;
  for (size_t i = 0; i < all.size();) { size_t j = i; while (j < all.size() && all[j] == all[i]) j++; if ((j - i) & 1) r.push_back(all[i]); i = j; }
  return internSet(r) << 1 | neg;
}
static Lit xor2(Lit a, Lit b) { std::vector<Lit> v{a, b}; return xorLits(v); }
// the single atom standing for a set
static uint32_t nameSet(uint32_t s) {
  if (sets[s].size() == 1) return sets[s][0];
  return mkAtom(Atom::NAMED, {s}, setLane[s]);
}
static uint32_t prodAtoms(uint32_t a, uint32_t b) {
  Vec f; auto add = [&](uint32_t x) { if (atoms[x].k == Atom::PROD) f.insert(f.end(), atoms[x].f.begin(), atoms[x].f.end()); else f.push_back(x); };
  add(a); add(b); std::sort(f.begin(), f.end()); f.erase(std::unique(f.begin(), f.end()), f.end());
  if (f.size() == 1) return f[0];
  uint64_t l = ~0ull; for (auto x : f) l &= atoms[x].lane;
  return mkAtom(Atom::PROD, f, l);
}
static Lit and2(Lit a, Lit b) {
  if (a > b) std::swap(a, b);
  if (a == 0) return 0; if (a == 1) return b;
  if (a == b) return a; if ((a ^ b) == 1) return 0;
  static std::unordered_map<uint64_t, Lit> mm; uint64_t key = (uint64_t)a << 32 | b;
  auto it = mm.find(key); if (it != mm.end()) return it->second;
  Vec A = sets[a >> 1], B = sets[b >> 1]; uint32_t na = a & 1, nb = b & 1;
  auto deg = [&](const Vec &v) { size_t d = 1; for (auto x : v) if (atoms[x].k == Atom::PROD) d = std::max(d, atoms[x].f.size()); return d; };
  if (A.size() * B.size() > 16 || deg(A) + deg(B) > 8) {
    // name the longer side first; a short side keeps its shape
    if (A.size() > 1) A = {nameSet(a >> 1)};
    if (B.size() > 1) B = {nameSet(b >> 1)};
  }
  Vec r;
  for (auto x : A) for (auto y : B) r.push_back(prodAtoms(x, y));
  std::sort(r.begin(), r.end()); Vec r2;
  for (size_t i = 0; i < r.size();) { size_t j = i; while (j < r.size() && r[j] == r[i]) j++; if ((j - i) & 1) r2.push_back(r[i]); i = j; }
  std::vector<Lit> ls{internSet(r2) << 1};
  if (nb) ls.push_back(a & ~1u);
  if (na) ls.push_back(b & ~1u);
  if (na & nb) ls.push_back(1);
  Lit l = xorLits(ls);
  mm[key] = l;
  return l;
}
static Lit or2(Lit a, Lit b) { return and2(a ^ 1, b ^ 1) ^ 1; }
static Lit ite3(Lit c, Lit a, Lit b) { return xor2(b, and2(c, xor2(a, b))); }

// ---- lookup tables ----
typedef std::vector<uint64_t> TTab;
struct Basis {
  unsigned n; std::vector<uint32_t> vars;
  std::vector<TTab> fn; std::vector<uint32_t> atom;       // added non-linear functions and their atoms
  std::vector<std::pair<TTab, std::vector<uint64_t>>> rows; // echelon rows with their combination (bitset over 1, vars, fns)
  std::vector<unsigned> pivot;
};
static std::unordered_map<Vec, Basis *, VH> bases;
static void addRow(Basis &B, TTab f, std::vector<uint64_t> comb) { unsigned p = 0; while (!(f[p / 64] >> (p % 64) & 1)) p++; B.rows.push_back({std::move(f), std::move(comb)}); B.pivot.push_back(p); }
static void reduce(Basis &B, TTab &f, std::vector<uint64_t> &comb) {
  for (size_t i = 0; i < B.rows.size(); i++) if (f[B.pivot[i] / 64] >> (B.pivot[i] % 64) & 1) {
    for (size_t j = 0; j < f.size(); j++) f[j] ^= B.rows[i].first[j];
    for (size_t j = 0; j < comb.size(); j++) comb[j] ^= B.rows[i].second[j];
  }
}
static bool isZ(const TTab &f) { for (auto x : f) if (x) return false; return true; }
static Basis *basisFor(const Vec &vars) {
  Basis *&b = bases[vars]; if (b) return b;
  b = new Basis; b->n = vars.size(); b->vars = vars; unsigned sz = 1u << b->n, W = (sz + 63) / 64;
  auto unit = [&](unsigned i) { std::vector<uint64_t> c(8, 0); c[i / 64] |= 1ull << (i % 64); return c; };
  TTab one(W, 0); for (unsigned i = 0; i < sz; i++) one[i / 64] |= 1ull << (i % 64);
  addRow(*b, one, unit(0));
  for (unsigned v = 0; v < b->n; v++) {
    TTab f(W, 0); for (unsigned i = 0; i < sz; i++) if (i >> v & 1) f[i / 64] |= 1ull << (i % 64);
    std::vector<uint64_t> c = unit(1 + v); reduce(*b, f, c); addRow(*b, f, c);
  }
  return b;
}
// literal of a truth table over sorted distinct atoms
static Lit tableLit(Vec vars, TTab f, std::vector<std::pair<int, int>> *used = nullptr) {
  // drop variables the function does not depend on
  for (size_t v = 0; v < vars.size();) {
    unsigned sz = 1u << vars.size(); bool dep = false;
    for (unsigned i = 0; i < sz && !dep; i++) if (!(i >> v & 1)) { unsigned j = i | 1u << v; if ((f[i / 64] >> (i % 64) & 1) != (f[j / 64] >> (j % 64) & 1)) dep = true; }
    if (dep) { v++; continue; }
    TTab g((sz / 2 + 63) / 64, 0); unsigned o = 0;
    for (unsigned i = 0; i < sz; i++) if (!(i >> v & 1)) { if (f[i / 64] >> (i % 64) & 1) g[o / 64] |= 1ull << (o % 64); o++; }
    f.swap(g); vars.erase(vars.begin() + v);
  }
  if (vars.empty()) return f[0] & 1;
  unsigned n = vars.size(), sz = 1u << n;
  if (n <= 4) {   // algebraic normal form
    uint32_t t = f[0]; std::vector<uint8_t> a(sz); for (unsigned i = 0; i < sz; i++) a[i] = t >> i & 1;
    for (unsigned v = 0; v < n; v++) for (unsigned i = 0; i < sz; i++) if (i >> v & 1) a[i] ^= a[i ^ (1u << v)];
    std::vector<Lit> ls;
    for (unsigned m = 0; m < sz; m++) if (a[m]) {
      if (!m) { ls.push_back(1); continue; }
      uint32_t p = ~0u; for (unsigned v = 0; v < n; v++) if (m >> v & 1) p = p == ~0u ? vars[v] : prodAtoms(p, vars[v]);
      ls.push_back(litAtom(p));
    }
    return xorLits(ls);
  }
  Basis &B = *basisFor(vars);
  std::vector<uint64_t> comb(8, 0); TTab g = f; reduce(B, g, comb);
  if (!isZ(g)) {
    unsigned k = B.fn.size(), bit = 1 + n + k;
    if (bit >= 512) return ~0u;
    uint64_t lane = 0;
    for (unsigned r = 0; r < 64; r++) { unsigned i = 0; for (unsigned v = 0; v < n; v++) i |= (unsigned)(atoms[vars[v]].lane >> r & 1) << v; lane |= (f[i / 64] >> (i % 64) & 1) << r; }
    Vec key = vars; key.push_back(k);
    B.fn.push_back(f); B.atom.push_back(mkAtom(Atom::BASIS, key, lane));
    std::vector<uint64_t> c2 = comb; c2[bit / 64] ^= 1ull << (bit % 64);   // row = f + combination
    addRow(B, g, c2);
    std::fill(comb.begin(), comb.end(), 0); comb[bit / 64] |= 1ull << (bit % 64);
  }
  std::vector<Lit> ls;
  for (unsigned i = 0; i < 512; i++) if (comb[i / 64] >> (i % 64) & 1) ls.push_back(i == 0 ? 1 : i <= n ? litAtom(vars[i - 1]) : litAtom(B.atom[i - 1 - n]));
  return xorLits(ls);
}
// z3 lemma: the table equals the exclusive-or of the basis functions that were used for it, for every index
static void tableLemma(const std::vector<TTab> &fs, const std::vector<std::vector<TTab>> &parts, unsigned n) {
  static std::unordered_map<std::string, bool> done; std::string key;
  for (size_t i = 0; i < fs.size(); i++) { key.append((const char *)fs[i].data(), fs[i].size() * 8); for (auto &p : parts[i]) key.append((const char *)p.data(), p.size() * 8); key += '/'; }
  if (done.count(key)) return;
  static std::map<unsigned, Term *> iv; Term *&x = iv[n]; if (!x) x = mkVar(n, "table-index");
  auto arr = [&](const TTab &f) { TV e; for (unsigned i = 0; i < (1u << n); i++) e.push_back(mkC(1, f[i / 64] >> (i % 64) & 1)); return mkSelect(mkArr(e), x); };
  TV lhs, rhs; for (size_t i = 0; i < fs.size(); i++) { lhs.push_back(arr(fs[i])); Term *r = mkC(1, 0); for (auto &p : parts[i]) r = mkXor(r, arr(p)); rhs.push_back(r); }
  Term *a = mkConcat(lhs), *b = mkConcat(rhs);
  done[key] = true;
  if (a == b) return;
  S.tableLemmas++;
  if (solve({mkNot(mkEq(a, b))}, nullptr, 60000) != R_UNSAT) { g_canonBad = true; fprintf(stderr, "rsx: table lemma failed\n"); }
}
static void selectBits(Term *t, Vec &out) {
  Term *arr = t->k[0]; const Vec &ix = memo[t->k[1]];
  unsigned n = ix.size(); bool allc = true; for (auto e : arr->k) if (!e->isConst()) { allc = false; break; }
  out.clear();
  if (!allc || n > 10) {
    if (arr->k.size() <= 64 && n <= 6) {   // multiplexer tree
      std::vector<Vec> cur; for (unsigned i = 0; i < (1u << n); i++) cur.push_back(memo[i < arr->k.size() ? arr->k[i] : arr->k[0]]);
      for (unsigned v = 0; v < n; v++) { std::vector<Vec> nx; for (size_t i = 0; i + 1 < cur.size(); i += 2) { Vec r; for (unsigned b = 0; b < t->w; b++) r.push_back(ite3(ix[v], cur[i + 1][b], cur[i][b])); nx.push_back(r); } cur.swap(nx); }
      out = cur[0];
    }
    return;
  }
  // index bits that are themselves table functions of common variables: compose the tables
  Vec vars; std::vector<std::pair<int, int>> src(n); bool comp = false;   // index bit -> (position in vars or -1, polarity)
  {
    bool ok = true; const Vec *bv = nullptr; Vec tmp;
    for (unsigned i = 0; i < n && ok; i++) for (auto a : sets[ix[i] >> 1]) if (atoms[a].k == Atom::BASIS) {
      Vec v(atoms[a].f.begin(), atoms[a].f.end() - 1);
      if (!bv) { tmp = v; bv = &tmp; } else if (v != *bv) { ok = false; break; }
    }
    if (bv && ok && bv->size() <= 8) {
      for (unsigned i = 0; i < n && ok; i++) for (auto a : sets[ix[i] >> 1]) if (atoms[a].k != Atom::BASIS && !std::binary_search(bv->begin(), bv->end(), a)) { ok = false; break; }
      if (ok) { comp = true; vars = *bv; }
    }
  }
  if (!comp) {
    for (unsigned i = 0; i < n; i++) if (ix[i] > 1) vars.push_back(nameSet(ix[i] >> 1));
    std::sort(vars.begin(), vars.end()); vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
    for (unsigned i = 0; i < n; i++) src[i] = ix[i] <= 1 ? std::make_pair(-1, (int)ix[i]) : std::make_pair((int)(std::lower_bound(vars.begin(), vars.end(), nameSet(ix[i] >> 1)) - vars.begin()), (int)(ix[i] & 1));
  }
  unsigned m = vars.size(), sz = 1u << m;
  std::vector<const APInt *> row(sz);
  if (comp) {
    Basis &B = *bases[vars];
    for (unsigned i = 0; i < sz; i++) {
      unsigned j = 0;
      for (unsigned b = 0; b < n; b++) {
        unsigned x = ix[b] & 1;
        for (auto a : sets[ix[b] >> 1]) if (atoms[a].k == Atom::BASIS) { auto &f = B.fn[atoms[a].f.back()]; x ^= f[i / 64] >> (i % 64) & 1; } else x ^= i >> (std::lower_bound(vars.begin(), vars.end(), a) - vars.begin()) & 1;
        j |= x << b;
      }
      row[i] = &(j < arr->k.size() ? arr->k[j] : arr->k[0])->cv();
    }
  } else
  for (unsigned i = 0; i < sz; i++) { unsigned j = 0; for (unsigned b = 0; b < n; b++) j |= (unsigned)((src[b].first < 0 ? 0 : (i >> src[b].first & 1)) ^ src[b].second) << b; row[i] = &(j < arr->k.size() ? arr->k[j] : arr->k[0])->cv(); }
  for (unsigned b = 0; b < t->w; b++) {
    TTab f((sz + 63) / 64, 0); for (unsigned i = 0; i < sz; i++) if ((*row[i])[b]) f[i / 64] |= 1ull << (i % 64);
    Lit l = tableLit(vars, f); if (l == ~0u) { out.clear(); return; }
    out.push_back(l);
  }
  if (m >= 5) {
    std::vector<TTab> fs; std::vector<std::vector<TTab>> parts; auto bi = bases.find(vars);
    if (bi != bases.end()) {
      Basis &B = *bi->second;
      for (unsigned b = 0; b < t->w; b++) {
        TTab f((sz + 63) / 64, 0), aff((sz + 63) / 64, 0); for (unsigned i = 0; i < sz; i++) if ((*row[i])[b]) f[i / 64] |= 1ull << (i % 64);
        std::vector<TTab> ps; bool ok = true;
        for (auto a : sets[out[b] >> 1]) {
          bool got = false;
          for (size_t q = 0; q < B.atom.size() && !got; q++) if (B.atom[q] == a) { ps.push_back(B.fn[q]); got = true; }
          for (unsigned v = 0; v < m && !got; v++) if (vars[v] == a) { for (unsigned i = 0; i < sz; i++) if (i >> v & 1) aff[i / 64] ^= 1ull << (i % 64); got = true; }
          ok &= got;
        }
        if (out[b] & 1) for (unsigned i = 0; i < sz; i++) aff[i / 64] ^= 1ull << (i % 64);
        if (!isZ(aff)) ps.push_back(aff);
        if (ok) { fs.push_back(f); parts.push_back(ps); }
      }
      if (!comp && m == n) {   // state the lemma over the index as the program has it, so that equal lemmas are recognised
        auto back = [&](TTab &f) { TTab g(f.size(), 0); for (unsigned i = 0; i < sz; i++) if (f[i / 64] >> (i % 64) & 1) { unsigned j = 0; for (unsigned b = 0; b < n; b++) j |= ((i >> src[b].first & 1) ^ src[b].second) << b; g[j / 64] |= 1ull << (j % 64); } f.swap(g); };
        for (auto &f : fs) back(f);
        for (auto &ps : parts) { for (auto &p : ps) back(p); std::sort(ps.begin(), ps.end()); }
      }
      if (!fs.empty()) tableLemma(fs, parts, m);
    }
  }
}
static uint32_t wordId(const Vec &v) { auto it = wordIds.find(v); if (it != wordIds.end()) return it->second; uint32_t id = wordIds.size(); wordIds.emplace(v, id); return id; }
static Pool *g_cp;
static uint64_t termLane(Term *t, unsigned bit) {
  uint64_t l = 0; unsigned W = (t->w + 63) / 64; auto &v = g_cp->get(t);
  for (unsigned r = 0; r < 64; r++) l |= (v[r * W + bit / 64] >> (bit % 64) & 1) << r;
  return l;
}
static Lit opaqueBit(Vec key, Term *t, unsigned bit, unsigned flip = 0) { return litAtom(mkAtom(Atom::OPAQUE, std::move(key), flip ? ~termLane(t, bit) : termLane(t, bit))); }

static std::unordered_map<uint32_t, std::pair<Vec, std::vector<uint32_t>>> opaqueKids;   // with -v only: atom -> constant, words
static void compute(Term *t) {
  Vec o; unsigned w = t->w;
  auto M = [&](Term *x) -> const Vec & { return memo[x]; };
  switch (t->op) {
  case T_CONST: for (unsigned i = 0; i < w; i++) o.push_back(t->cv()[i]); break;
  case T_VAR: for (unsigned i = 0; i < w; i++) o.push_back(litAtom(mkAtom(Atom::VAR, {t->a, i}, termLane(t, i)))); break;
  case T_XOR: for (unsigned i = 0; i < w; i++) { std::vector<Lit> ls; for (auto k : t->k) ls.push_back(M(k)[i]); o.push_back(xorLits(ls)); } break;
  case T_AND: for (unsigned i = 0; i < w; i++) { Lit l = 1; for (auto k : t->k) l = and2(l, M(k)[i]); o.push_back(l); } break;
  case T_OR: for (unsigned i = 0; i < w; i++) { Lit l = 0; for (auto k : t->k) l = or2(l, M(k)[i]); o.push_back(l); } break;
  case T_CONCAT: for (auto k : t->k) { auto &v = M(k); o.insert(o.end(), v.begin(), v.end()); } break;
  case T_EXTRACT: { auto &v = M(t->k[0]); o.assign(v.begin() + t->a, v.begin() + t->a + w); break; }
  case T_SEXT: o = M(t->k[0]); while (o.size() < w) o.push_back(o.back()); break;
  case T_ITE: { Lit c = M(t->k[0])[0]; for (unsigned i = 0; i < w; i++) o.push_back(ite3(c, M(t->k[1])[i], M(t->k[2])[i])); break; }
  case T_SELECT: selectBits(t, o); break;
  case T_EQ: {
    const Vec &a = M(t->k[0]), &b = M(t->k[1]);
    if (a.size() <= 8) { Lit l = 1; for (size_t i = 0; i < a.size(); i++) l = and2(l, xor2(a[i], b[i]) ^ 1); o.push_back(l); }
    else { uint32_t x = wordId(a), y = wordId(b); if (x > y) std::swap(x, y); if (x == y) o.push_back(1); else o.push_back(opaqueBit({T_EQ, x, y}, t, 0)); }
    break;
  }
  case T_LIN: {
    // bit i of a sum depends on the low i+1 bits of the operands only
    struct P { Vec v; APInt c; };
    std::vector<P> ps; APInt konst = t->c[0]; unsigned validTo = 0;
    // operands whose low part is itself a sum are opened for the bits that part covers
    auto fill = [&](unsigned i) {
      ps.clear(); konst = t->c[0]; validTo = w;
      std::function<void(Term *, APInt)> go = [&](Term *x, APInt c) {
        Term *in = x->op == T_CONCAT && x->k[0]->op == T_LIN ? x->k[0] : nullptr;
        if (in && i < in->w) {
          if (in->w < validTo) validTo = in->w;
          konst += in->c[0].zext(w) * c; for (size_t j = 0; j < in->k.size(); j++) go(in->k[j], in->c[j + 1].zext(w) * c);
          return;
        }
        Vec v = M(x); unsigned s = 0;   // constant low bits leave the word: W = (W >> s << s) + low
        while (s < v.size() && v[s] <= 1) { if (v[s]) konst += c.shl(s); s++; }
        if (s == v.size()) return;
        v.erase(v.begin(), v.begin() + s); v.resize(w, 0); c <<= s;
        ps.push_back({v, c});
      };
      for (size_t j = 0; j < t->k.size(); j++) go(t->k[j], t->c[j + 1]);
    };
    for (unsigned i = 0; i < w; i++) {
      if (i >= validTo) fill(i);
      std::vector<Lit> bit0; if (i == 0) { unsigned nv = 0; for (auto &p : ps) { bool odd = p.c[0]; if (odd) bit0.push_back(p.v[0]); nv += odd && p.v[0] > 1; } bit0.push_back(konst[0]); Lit l = xorLits(bit0); if (nv > 1 && sets[l >> 1].size() > 1) l = litAtom(nameSet(l >> 1)) ^ (l & 1); o.push_back(l); continue; }   // one atom: products with it keep their shape
      // an operand counts with as many low bits as its coefficient leaves visible; equal ones are merged
      std::vector<std::pair<Vec, APInt>> ws; APInt c = konst.trunc(i + 1);
      for (auto &p : ps) {
        APInt cf = p.c.trunc(i + 1); if (cf.isZero()) continue;
        Vec low(p.v.begin(), p.v.begin() + i + 1 - cf.countr_zero());
        bool allc = true; APInt cv(i + 1, 0);
        for (size_t j = 0; j < low.size(); j++) { if (low[j] > 1) { allc = false; break; } if (low[j]) cv.setBit(j); }
        if (allc) { c += cf * cv; continue; }
        for (size_t j = 0; j < low.size(); j++) if (low[j] > 1) {   // ~W is -W-1: the lowest variable bit is kept uncomplemented
          if (low[j] & 1) { for (auto &l : low) l ^= 1; c -= cf; cf = -cf; }
          break;
        }
        for (size_t j = 0; j < low.size(); j++) if (low[j] == 1) { c += cf.shl(j); low[j] = 0; }   // constant bits join the constant
        ws.push_back({std::move(low), cf});
      }
      std::stable_sort(ws.begin(), ws.end(), [](auto &x, auto &y) { return x.first.size() > y.first.size(); });
      std::vector<std::pair<Vec, APInt>> gs;
      for (auto &p : ws) {
        bool f = false;
        for (auto &g : gs) if (g.first[0] == p.first[0] && g.first.size() >= p.first.size() && std::equal(p.first.begin(), p.first.end(), g.first.begin())) { g.second += p.second; f = true; break; }
        if (!f) gs.push_back(std::move(p));
      }
      std::vector<std::pair<uint32_t, APInt>> ks; const Vec *last = nullptr;
      for (auto &g : gs) if (!g.second.isZero()) { g.first.resize(std::min<size_t>(g.first.size(), i + 1 - g.second.countr_zero())); ks.push_back({wordId(g.first), g.second}); last = &g.first; }
      std::sort(ks.begin(), ks.end(), [](auto &x, auto &y) { return x.first < y.first; });
      // bit i of -x-1 is the complement of bit i of x: keep the first non-ambiguous coefficient positive
      unsigned flip = 0;
      for (auto &q : ks) { APInt m = -q.second; if (q.second == m) continue; if (m.ult(q.second)) flip = 1; break; }
      if (flip) { for (auto &q : ks) q.second = -q.second; c = -c - 1; }
      Vec key{T_LIN, i}; auto putC = [&](const APInt &x) { for (unsigned j = 0; j < x.getNumWords(); j++) { key.push_back(x.getRawData()[j]); key.push_back(x.getRawData()[j] >> 32); } };
      putC(c);
      for (auto &q : ks) { key.push_back(q.first); putC(q.second); }
      if (ks.empty()) { o.push_back(c[i] ^ flip); continue; }
      if (ks.size() == 1 && c.isZero() && ks[0].second.isPowerOf2()) { o.push_back((*last)[i - ks[0].second.countr_zero()] ^ flip); continue; }   // a single word
      Lit l = opaqueBit(key, t, i, flip); o.push_back(l ^ flip);
      if (O.verbose) { auto &ok = opaqueKids[sets[l >> 1][0]]; ok.first = {(uint32_t)c.getLimitedValue()}; ok.second.clear(); for (auto &q : ks) if (!q.second.isZero()) ok.second.push_back(q.first); }
    }
    break;
  }
  case T_MUL: {
    const Vec &a = M(t->k[0]), &b = M(t->k[1]);
    for (unsigned i = 0; i < w; i++) {
      if (i == 0) { o.push_back(and2(a[0], b[0])); continue; }
      uint32_t x = wordId(Vec(a.begin(), a.begin() + i + 1)), y = wordId(Vec(b.begin(), b.begin() + i + 1)); if (x > y) std::swap(x, y);
      o.push_back(opaqueBit({T_MUL, i, x, y}, t, i));
    }
    break;
  }
  default: break;
  }
  if (o.empty()) {
    Vec key{(uint32_t)t->op, 0xffffffffu, t->a, t->w};
    for (auto k : t->k) { if (k->op == T_ARR) { for (auto e : k->k) key.push_back(wordId(M(e))); } else key.push_back(wordId(M(k))); }
    for (unsigned i = 0; i < w; i++) { Vec k2 = key; k2.push_back(i); o.push_back(opaqueBit(k2, t, i)); }
  }
  // cross-check against concrete evaluation
  if (t->op != T_CONST && t->op != T_VAR && t->op != T_CONCAT && t->op != T_EXTRACT)
    for (unsigned i = 0; i < w; i++) if (laneOf(o[i]) != termLane(t, i)) { g_canonBad = true; fprintf(stderr, "rsx: normal form check failed on %s bit %u\n", termStr(t, 2).c_str(), i); break; }
  memo.emplace(t, std::move(o));
}
static bool canon(Term *root) {
  if (!g_cp) g_cp = new Pool(64, O.seed + 99);
  std::vector<Term *> st{root};
  while (!st.empty()) {
    if (g_canonBad) throw EngineError{"normal form self-check failed"};
    Term *t = st.back();
    if (memo.count(t)) { st.pop_back(); continue; }
    bool ok = true;
    for (auto p : t->k) {
      if (p->op == T_ARR) { for (auto q : p->k) if (!memo.count(q)) { st.push_back(q); ok = false; } }
      else if (!memo.count(p)) { st.push_back(p); ok = false; }
    }
    if (!ok) continue;
    compute(t); st.pop_back();
  }
  return true;
}
bool canonEqual(Term *a, Term *b) {
  canon(a); canon(b);
  if (g_canonBad) throw EngineError{"normal form self-check failed"};
  return memo[a] == memo[b];
}
// number of the normal form of a term that has one already
bool canonId(Term *t, uint32_t &id) { auto it = memo.find(t); if (it == memo.end()) return false; id = wordId(it->second); return true; }
static std::string atomStr(uint32_t a, int d) {
  Atom &x = atoms[a]; std::string r; auto setS = [&](uint32_t s) { std::string q = "{"; for (auto y : sets[s]) q += atomStr(y, d - 1) + " "; return q + "}"; };
  if (d <= 0) return "#" + std::to_string(a);
  switch (x.k) {
  case Atom::VAR: return g_vars[x.f[0]].name + "." + std::to_string(x.f[1]);
  case Atom::NAMED: return "N" + setS(x.f[0]);
  case Atom::PROD: r = "("; for (auto y : x.f) r += atomStr(y, d - 1) + "*"; return r + ")";
  case Atom::BASIS: r = "B" + std::to_string(x.f.back()) + "("; for (size_t i = 0; i + 1 < x.f.size(); i++) r += atomStr(x.f[i], d - 1) + " "; return r + ")";
  default: return "O" + std::to_string(a) + ":" + opname[x.f[0]];
  }
}
static std::string atomStr(uint32_t a, int d);
// debugging aid (-v): walk from two different literals down to the first difference between sets
static void diffLits(Lit p, Lit q, int d) {
  std::vector<const Vec *> W(wordIds.size()); for (auto &x : wordIds) W[x.second] = &x.first;
  std::string trail;
  for (; d < 3000; d++) {
    Vec A = sets[p >> 1], B = sets[q >> 1], d1, d2;
    std::set_difference(A.begin(), A.end(), B.begin(), B.end(), std::back_inserter(d1)); std::set_difference(B.begin(), B.end(), A.begin(), A.end(), std::back_inserter(d2));
    auto open = [&](Vec &v) { while (v.size() == 1 && atoms[v[0]].k == Atom::NAMED) { Vec w = sets[atoms[v[0]].f[0]]; v = w; } };
    open(d1); open(d2);
    { Vec e1, e2; std::set_difference(d1.begin(), d1.end(), d2.begin(), d2.end(), std::back_inserter(e1)); std::set_difference(d2.begin(), d2.end(), d1.begin(), d1.end(), std::back_inserter(e2)); d1 = e1; d2 = e2; }
    // factors of products
    auto flat = [&](Vec &v) { Vec r; for (auto x : v) if (atoms[x].k == Atom::PROD) r.insert(r.end(), atoms[x].f.begin(), atoms[x].f.end()); else r.push_back(x); std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r; };
    Vec f1 = flat(d1), f2 = flat(d2), g1, g2; std::set_difference(f1.begin(), f1.end(), f2.begin(), f2.end(), std::back_inserter(g1)); std::set_difference(f2.begin(), f2.end(), f1.begin(), f1.end(), std::back_inserter(g2));
    uint32_t x = 0, y = 0; bool got = false;
    for (auto u : g1) { for (auto v : g2) if (opaqueKids.count(u) && opaqueKids.count(v) && atoms[u].f[1] == atoms[v].f[1]) { x = u; y = v; got = true; break; } if (got) break; }
    if (!got) for (auto u : g1) { for (auto v : g2) if (atoms[u].k == Atom::NAMED && atoms[v].k == Atom::NAMED) { x = u; y = v; got = true; break; } if (got) break; }
    if (got && atoms[x].k == Atom::NAMED) { p = atoms[x].f[0] << 1; q = atoms[y].f[0] << 1; continue; }
    if (!got) {
      fprintf(stderr, "walk ends at depth %d: polarity %u %u\n", d, p & 1, q & 1);
      for (auto z : {&d1, &d2}) { fprintf(stderr, "  side:"); for (auto u : *z) fprintf(stderr, " %s", atomStr(u, 3).c_str()); fprintf(stderr, "\n"); }
      return;
    }
    auto &kx = opaqueKids[x], &ky = opaqueKids[y]; std::vector<uint32_t> a, b;
    for (size_t i = 0; i < kx.second.size(); i++) { bool f = false; for (auto z : ky.second) f |= z == kx.second[i]; if (!f) a.push_back(kx.second[i]); }
    for (size_t i = 0; i < ky.second.size(); i++) { bool f = false; for (auto z : kx.second) f |= z == ky.second[i]; if (!f) b.push_back(ky.second[i]); }
    if (a.empty() || b.empty() || a.size() != b.size() || getenv("RSX_WALK")) {
      fprintf(stderr, "walk ends at depth %d in a sum (bit %u): words %zu %zu unmatched %zu %zu lits %u %u\n", d, atoms[x].f[1], kx.second.size(), ky.second.size(), a.size(), b.size(), p, q);
      auto show = [&](uint32_t w) { fprintf(stderr, "    word"); for (size_t i = 0; i < W[w]->size() && i < 6; i++) { Lit l = (*W[w])[i]; fprintf(stderr, " %s[", l & 1 ? "~" : ""); for (auto u : sets[l >> 1]) fprintf(stderr, "%s ", atomStr(u, 2).c_str()); fprintf(stderr, "]"); } fprintf(stderr, "\n"); };
      fprintf(stderr, "keys"); for (auto z : atoms[x].f) fprintf(stderr, " %x", z); fprintf(stderr, "\n    "); for (auto z : atoms[y].f) fprintf(stderr, " %x", z); fprintf(stderr, "\n");
      fprintf(stderr, "  left const %08x\n", kx.first.size() ? kx.first[0] : 0); for (auto w : a) show(w); fprintf(stderr, "  right const %08x\n", ky.first.size() ? ky.first[0] : 0); for (auto w : b) show(w);
      if (a.empty() || b.empty() || a.size() != b.size()) return;
    }
    size_t best = ~0ull; uint32_t bi = 0, bj = 0;
    for (auto u : a) for (auto v : b) { size_t n = 0; for (size_t i = 0; i < W[u]->size() && i < W[v]->size(); i++) n += (*W[u])[i] != (*W[v])[i]; if (n < best) { best = n; bi = u; bj = v; } }
    for (size_t i = 0; i < W[bi]->size(); i++) if ((*W[bi])[i] != (*W[bj])[i]) { p = (*W[bi])[i]; q = (*W[bj])[i]; break; }
  }
}
void canonDiff(Term *a, Term *b) {
  { auto &x = memo[a], &y = memo[b]; for (size_t i = 0; i < x.size(); i++) if (x[i] != y[i]) { diffLits(x[i], y[i], 0); break; } return; }

  auto &x = memo[a], &y = memo[b];
  for (size_t i = 0; i < x.size(); i++) if (x[i] != y[i]) {
    uint32_t p = x[i] >> 1, q = y[i] >> 1; std::string r;
    for (int it = 0; it < 40; it++) {   // walk down to the first difference that is not a name
      Vec d1, d2; std::set_difference(sets[p].begin(), sets[p].end(), sets[q].begin(), sets[q].end(), std::back_inserter(d1)); std::set_difference(sets[q].begin(), sets[q].end(), sets[p].begin(), sets[p].end(), std::back_inserter(d2));
      fprintf(stderr, "level %d: only left:", it); for (size_t j = 0; j < d1.size() && j < 6; j++) fprintf(stderr, " %s", atomStr(d1[j], 2).c_str());
      fprintf(stderr, "\n   only right:"); for (size_t j = 0; j < d2.size() && j < 6; j++) fprintf(stderr, " %s", atomStr(d2[j], 2).c_str()); fprintf(stderr, "\n");
      if (d1.empty() || d2.empty() || atoms[d1[0]].k != Atom::BASIS || atoms[d2[0]].k != Atom::BASIS) break;
      Vec f = atoms[d1[0]].f, g = atoms[d2[0]].f; bool go = false;
      for (size_t j = 0; j + 1 < f.size() && j + 1 < g.size(); j++) if (f[j] != g[j] && atoms[f[j]].k == Atom::NAMED && atoms[g[j]].k == Atom::NAMED) { p = atoms[f[j]].f[0]; q = atoms[g[j]].f[0]; go = true; break; }
      if (!go) break;
    }
    return;
  }
}
