// Deciding the equality of two terms: normalisation, simulation, SAT sweeping over internal nodes, full query.
#include "exec.h"
#include <algorithm>
#include <cstring>


#include "pool.h"
bool canonEqual(Term *a, Term *b);
bool canonId(Term *t, uint32_t &id);
void canonDiff(Term *a, Term *b);
static std::unordered_map<Term *, Term *> g_rep;        // proven-equal representative (unconditional)
static std::map<std::pair<uint32_t, uint32_t>, int> g_tried;

static Term *rebuild(Term *t, const std::function<Term *(Term *)> &R) {
  bool ch = false; TV k;
  for (auto p : t->k) { Term *q = R(p); ch |= q != p; k.push_back(q); }
  if (!ch) return t;
  switch (t->op) {
  case T_LIN: { std::vector<std::pair<Term *, APInt>> kk; for (size_t i = 0; i < k.size(); i++) kk.push_back({k[i], t->c[i + 1]}); return mkLin(t->w, t->c[0], kk); }
  case T_MUL: return mkMul(k[0], k[1]);
  case T_UDIV: return mkUDiv(k[0], k[1]);
  case T_UREM: return mkURem(k[0], k[1]);
  case T_AND: case T_OR: case T_XOR: return mkBitN(t->op, k);
  case T_SHL: return mkShl(k[0], k[1]);
  case T_LSHR: return mkLShr(k[0], k[1]);
  case T_ASHR: return mkAShr(k[0], k[1]);
  case T_CONCAT: return mkConcat(k);
  case T_EXTRACT: return mkExtract(k[0], t->a, t->w);
  case T_SEXT: return mkSExt(k[0], t->w);
  case T_ITE: return mkIte(k[0], k[1], k[2]);
  case T_EQ: return mkEq(k[0], k[1]);
  case T_ULT: return mkUlt(k[0], k[1]);
  case T_SLT: return mkSlt(k[0], k[1]);
  case T_ARR: return mkArr(k);
  case T_SELECT: return mkSelect(k[0], k[1]);
  case T_FP: return mkFP(t->a, t->w, k);
  default: return t;
  }
}
static void cone(Term *root, unsigned depth, size_t limit, std::unordered_map<Term *, unsigned> &out) {
  std::vector<std::pair<Term *, unsigned>> q{{root, 0}};
  for (size_t i = 0; i < q.size() && out.size() < limit; i++) {
    Term *t = q[i].first; unsigned d = q[i].second;
    if (t->op == T_CONST || out.count(t)) continue;
    out[t] = d;
    if (d < depth) for (auto p : t->k) q.push_back({p, d + (t->op == T_ARR ? 0 : 1)});
  }
}
// canonical text of a cut formula: equal text means equal formula up to renaming of the cut variables
static std::string shape(Term *a, Term *b, const std::unordered_map<Term *, bool> &cut) {
  std::string r; std::unordered_map<Term *, unsigned> num; unsigned nl = 0;
  auto put = [&](uint64_t v) { r.append((const char *)&v, 8); };
  std::function<void(Term *)> go = [&](Term *t) {
    auto it = num.find(t);
    if (it != num.end()) { r += 'r'; put(it->second); return; }
    num[t] = nl++;
    if (cut.count(t) && t->op != T_CONST) { r += 'c'; put(t->w); return; }
    if (t->op == T_VAR) { r += 'v'; put(t->w); return; }
    if (t->op == T_CONST) { r += 'k'; put(t->id); return; }
    if (t->op == T_ARR) { bool allc = true; for (auto e : t->k) if (e->op != T_CONST) { allc = false; break; } if (allc) { r += 'a'; put(t->id); return; } }
    r += 'n'; put(t->op); put(t->w); put(t->a); put(t->k.size());
    for (auto &c : t->c) for (unsigned i = 0; i < c.getNumWords(); i++) put(c.getRawData()[i]);
    for (auto k : t->k) go(k);
  };
  go(a); go(b);
  return r;
}
static std::unordered_map<std::string, bool> g_shapes;
// try to prove two terms equal for all values of a cut below them
static bool localProof(Term *a, Term *b, unsigned timeout) {
  for (unsigned depth : {3u, 6u, 12u}) {
    std::unordered_map<Term *, unsigned> ca, cb;
    cone(a, depth, 400, ca); cone(b, depth, 400, cb);
    std::unordered_map<Term *, bool> cut;
    for (auto &p : ca) if (p.first != a && p.first != b && p.first->op != T_ARR && cb.count(p.first)) cut[p.first] = true;
    if (depth > 3) {  // open the shallowest common nodes once
      std::unordered_map<Term *, bool> c2;
      for (auto &p : cut) { bool leaf = p.first->op == T_VAR; if (leaf) { c2[p.first] = true; continue; } if (ca[p.first] > depth / 2 || cb[p.first] > depth / 2) c2[p.first] = true; }
      cut.swap(c2);
    }
    for (auto *m : {&ca, &cb}) for (auto &p : *m) if (p.second >= depth && p.first != a && p.first != b && p.first->op != T_ARR) cut[p.first] = true;
    // anything outside the explored region is cut as well
    for (auto *m : {&ca, &cb}) for (auto &p : *m) if (!cut.count(p.first)) for (auto q : p.first->k) {
      if (q->op == T_ARR) { for (auto e : q->k) if (e->op != T_CONST && !ca.count(e) && !cb.count(e)) cut[e] = true; }
      else if (!ca.count(q) && !cb.count(q) && q->op != T_CONST) cut[q] = true;
    }
    cut.erase(a); cut.erase(b);
    std::string key = shape(a, b, cut);
    auto ks = g_shapes.find(key);
    if (ks != g_shapes.end()) { if (ks->second) { S.shapeHits++; return true; } continue; }
    Res r = solve({mkNot(mkEq(a, b))}, nullptr, timeout, &cut);
    g_shapes[key] = r == R_UNSAT;
    if (r == R_UNSAT) return true;
    if (ca.size() + cb.size() < 8) break;
  }
  return false;
}
static Pool *g_pool = nullptr; static std::shared_ptr<Model> g_poolModel; static size_t g_poolPC = 0;
static void topo(const TV &roots, TV &out) {
  std::unordered_set<Term *> seen; std::vector<std::pair<Term *, size_t>> st;
  for (auto r : roots) {
    if (seen.count(r)) continue;
    st.push_back({r, 0}); seen.insert(r);
    while (!st.empty()) {
      auto &p = st.back();
      if (p.second < p.first->k.size()) { Term *q = p.first->k[p.second++]; if (q->op != T_CONST && seen.insert(q).second) st.push_back({q, 0}); }
      else { out.push_back(p.first); st.pop_back(); }
    }
  }
}
static Term *repOf(Term *t) { for (;;) { auto it = g_rep.find(t); if (it == g_rep.end() || it->second == t) return t; t = it->second; } }

static bool simDiff(Term *a, Term *b, State &s, Pool &P, std::unordered_map<uint32_t, APInt> &cex) {
  auto va = P.get(a); auto &vb = P.get(b);
  if (va == vb) return false;
  unsigned W = (a->w + 63) / 64;
  for (unsigned r = 0; r < P.N; r++) {
    bool d = false; for (unsigned j = 0; j < W; j++) d |= va[r * W + j] != vb[r * W + j];
    if (!d) continue;
    std::vector<uint32_t> vs = varSet(a); auto &v2 = varSet(b); vs.insert(vs.end(), v2.begin(), v2.end());
    cex.clear();
    for (auto v : vs) { P.get(g_vars[v].t); cex.insert_or_assign(v, P.ap(g_vars[v].t, r)); }
    Model m; m.v = s.model->v; for (auto &p : cex) m.v.insert_or_assign(p.first, p.second);
    bool ok = true; for (auto c : s.pc) if (!m.eval(c).isOne()) { ok = false; break; }
    if (ok && m.eval(a) != m.eval(b)) return true;
  }
  return false;
}
int decideEq(Term *a, Term *b, State &s, std::unordered_map<uint32_t, APInt> &cex) {
  if (a == b) { S.eqStruct++; return 1; }
  if (a->isConst() && b->isConst()) return 0;   // under a satisfiable path condition
  if (repOf(a) == repOf(b)) { S.eqSweep++; return 1; }
  // constants fixed by the path condition
  std::unordered_set<uint32_t> pcv; for (auto c : s.pc) for (auto v : varSet(c)) pcv.insert(v);
  if (!g_pool || g_poolModel != s.model || g_poolPC != pcv.size()) {
    delete g_pool; g_pool = new Pool(96, O.seed);
    for (auto v : pcv) { auto it = s.model->v.find(v); g_pool->fixed.insert_or_assign(v, it == s.model->v.end() ? APInt(g_vars[v].w, 0) : it->second); }
    g_poolModel = s.model; g_poolPC = pcv.size();
  }
  Pool &P = *g_pool;
  if (simDiff(a, b, s, P, cex)) return 0;
  if (canonEqual(a, b)) { S.eqCanon++; return 1; }
  if (O.verbose) canonDiff(a, b);
  TV slice = slicePC(s, {a, b});
  TV ord; topo({a, b}, ord);
  auto full = [&](Term *x, Term *y, unsigned tmo) -> int {
    if (x == y) return 1;
    TV q = slice; q.push_back(mkNot(mkEq(x, y)));
    Res r = solve(q, &cex, tmo);
    if (r == R_UNSAT) return 1;
    if (r == R_SAT) {
      Model m; m.v = s.model->v; for (auto &p : cex) m.v.insert_or_assign(p.first, p.second);
      if (m.eval(a) == m.eval(b)) throw EngineError{"equality model does not separate the terms"};
      return 0;
    }
    return -1;
  };
  if (ord.size() < 300) { int r = full(a, b, 3000); if (r >= 0) { if (r == 1) S.eqSolver++; return r; } }
  // sweep: free pool (no pinned variables) so that merges are unconditional candidates
  static Pool *FP = nullptr; if (!FP) FP = new Pool(96, O.seed + 77);
  std::unordered_map<uint64_t, Term *> cls;
  double t0 = now();
  unsigned fails = 0;
  for (auto t : ord) {
    if (t->op == T_VAR) { cls.emplace(FP->sig(t) * 31 + t->w, t); continue; }
    Term *t2 = rebuild(t, [&](Term *x) { return repOf(x); });
    if (t2 != t) { t2 = repOf(t2); if (t2 != t) g_rep[t] = t2; }
    if (t2->op == T_ARR || t2->isConst()) continue;
    if (repOf(t2) != t2) t2 = repOf(t2);
    uint64_t sg = FP->sig(t2) * 31 + t2->w;
    auto it = cls.find(sg);
    if (it == cls.end()) { cls[sg] = t2; continue; }
    Term *r = repOf(it->second);
    if (r == t2 || r->w != t2->w) continue;
    if (t2->w <= 1 && fails > 200) continue;
    auto key = std::make_pair(std::min(r->id, t2->id), std::max(r->id, t2->id));
    if (g_tried.count(key)) continue;
    if (now() - t0 > 120 || fails > 2000 || now() > g_deadline) break;
    if (localProof(r, t2, 3000)) { g_rep[t2] = r; S.sweepMerges++; }
    else { g_tried[key] = 1; fails++; }
  }
  Term *a2 = repOf(rebuild(repOf(a), [&](Term *x) { return repOf(x); })), *b2 = repOf(rebuild(repOf(b), [&](Term *x) { return repOf(x); }));
  if (a2 == b2) { S.eqSweep++; return 1; }
  for (int rounds = 0; rounds < 24 && now() < g_deadline; rounds++) { Pool E(128, O.seed * 1000 + rounds + 5); E.fixed = P.fixed; if (simDiff(a, b, s, E, cex)) return 0; }
  int r = full(a2, b2, O.eqTimeout);
  if (r == 1) S.eqSolver++;
  return r;
}
