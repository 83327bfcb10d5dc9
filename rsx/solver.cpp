#include "solver.h"
#include <algorithm>
#include <chrono>
#include <llvm/ADT/SmallString.h>
#include <map>
#include <z3++.h>

SolverStats g_ss;
unsigned g_queryTimeout = 60000; bool g_arith = true;
double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static z3::context &C() { static z3::context *c = nullptr; if (!c) { c = new z3::context; } return *c; }
typedef std::unordered_map<Term *, z3::expr> Memo;
static Memo g_memo;

static z3::expr bvc(const APInt &v) {
  llvm::SmallString<64> s; v.toString(s, 10, false);
  return C().bv_val(std::string(s.begin(), s.end()).c_str(), v.getBitWidth());
}
static z3::expr b2bv(const z3::expr &b) { return z3::ite(b, C().bv_val(1, 1), C().bv_val(0, 1)); }
static z3::expr bv2b(const z3::expr &e) { return e == C().bv_val(1, 1); }

// Boolean structure is kept as 1-bit vectors except that EQ/ULT/SLT/ITE conditions simplify through z3's own rewriter.
static z3::expr fpOf(const z3::expr &e) {
  unsigned w = e.get_sort().bv_size();
  z3::sort s(C(), w == 32 ? Z3_mk_fpa_sort_32(C()) : Z3_mk_fpa_sort_64(C()));
  return z3::expr(C(), Z3_mk_fpa_to_fp_bv(C(), e, s));
}
// x times a constant; a constant with few signed digits becomes shifts and additions, which the bit-level solver handles far better
static z3::expr mulC(z3::expr x, const APInt &cf) {
  unsigned w = cf.getBitWidth(); if (cf.isOne()) return x; std::vector<std::pair<unsigned, bool>> d; APInt v = cf.zext(w + 2);
  for (unsigned i = 0; !v.isZero() && d.size() <= 6; i++, v = v.lshr(1)) if (v[0]) { bool neg = v[1]; if (i < w) d.push_back({i, neg}); if (neg) v += 1; else v -= 1; }
  if (d.size() > 6) return x * bvc(cf);
  z3::expr s(C()); bool first = true;
  for (auto &e : d) { z3::expr t = e.first ? z3::shl(x, bvc(APInt(w, e.first))) : x; s = first ? (e.second ? -t : t) : e.second ? s - t : s + t; first = false; }
  return first ? bvc(APInt(w, 0)) : s;
}
static z3::expr trOne(Term *t, const std::function<z3::expr(Term *)> &E) {
  z3::context &c = C();
  switch (t->op) {
  case T_CONST: return bvc(t->cv());
  case T_VAR: return c.bv_const(("v" + std::to_string(t->a)).c_str(), t->w);
  case T_LIN: {
    z3::expr s(c); bool first = true;
    if (!t->c[0].isZero()) { s = bvc(t->c[0]); first = false; }
    for (size_t i = 0; i < t->k.size(); i++) {
      const APInt &cf = t->c[i + 1]; z3::expr x = E(t->k[i]);
      if (cf.isAllOnes() && cf.getBitWidth() > 1) { if (first) s = -x; else s = s - x; first = false; continue; }
      x = mulC(x, cf);
      if (first) s = x; else s = s + x;
      first = false;
    }
    return s;
  }
  case T_MUL: return E(t->k[0]) * E(t->k[1]);
  case T_UDIV: return z3::udiv(E(t->k[0]), E(t->k[1]));
  case T_UREM: return z3::urem(E(t->k[0]), E(t->k[1]));
  case T_AND: { z3::expr s = E(t->k[0]); for (size_t i = 1; i < t->k.size(); i++) s = s & E(t->k[i]); return s; }
  case T_OR: { z3::expr s = E(t->k[0]); for (size_t i = 1; i < t->k.size(); i++) s = s | E(t->k[i]); return s; }
  case T_XOR: {
    z3::expr s = E(t->k[0]); size_t i = 1;
    if (t->k[0]->isOnes()) { s = ~E(t->k[1]); i = 2; }
    for (; i < t->k.size(); i++) s = s ^ E(t->k[i]);
    return s;
  }
  case T_SHL: return z3::shl(E(t->k[0]), E(t->k[1]));
  case T_LSHR: return z3::lshr(E(t->k[0]), E(t->k[1]));
  case T_ASHR: return z3::ashr(E(t->k[0]), E(t->k[1]));
  case T_CONCAT: { z3::expr s = E(t->k.back()); for (int i = (int)t->k.size() - 2; i >= 0; i--) s = z3::concat(s, E(t->k[i])); return s; }
  case T_EXTRACT: return E(t->k[0]).extract(t->a + t->w - 1, t->a);
  case T_SEXT: return z3::sext(E(t->k[0]), t->w - t->k[0]->w);
  case T_ITE: return z3::ite(bv2b(E(t->k[0])), E(t->k[1]), E(t->k[2]));
  case T_EQ: return b2bv(E(t->k[0]) == E(t->k[1]));
  case T_ULT: return b2bv(z3::ult(E(t->k[0]), E(t->k[1])));
  case T_SLT: return b2bv(E(t->k[0]) < E(t->k[1]));
  case T_SELECT: {
    std::vector<z3::expr> e; for (auto x : t->k[0]->k) e.push_back(E(x));
    z3::expr idx = E(t->k[1]); unsigned iw = t->k[1]->w;
    for (unsigned b = 0; b < iw && e.size() > 1; b++) {
      z3::expr bit = idx.extract(b, b) == c.bv_val(1, 1);
      std::vector<z3::expr> n;
      for (size_t i = 0; i < e.size(); i += 2) {
        if (i + 1 >= e.size()) n.push_back(e[i]);
        else if (Z3_is_eq_ast(c, e[i], e[i + 1])) n.push_back(e[i]);
        else n.push_back(z3::ite(bit, e[i + 1], e[i]));
      }
      e = n;
    }
    return e[0];
  }
  case T_FP: {
    z3::expr rne(c, Z3_mk_fpa_round_nearest_ties_to_even(c)), rtz(c, Z3_mk_fpa_round_toward_zero(c));
    z3::sort s64(c, Z3_mk_fpa_sort_64(c)), s32(c, Z3_mk_fpa_sort_32(c)), so = t->w == 32 ? s32 : s64;
    auto F = [&](int i) { return fpOf(E(t->k[i])); };
    auto ret = [&](Z3_ast a) { return z3::expr(c, Z3_mk_fpa_to_ieee_bv(c, z3::expr(c, a))); };
    auto rb = [&](Z3_ast a) { return b2bv(z3::expr(c, a)); };
    switch (t->a) {
    case FP_ADD: return ret(Z3_mk_fpa_add(c, rne, F(0), F(1)));
    case FP_SUB: return ret(Z3_mk_fpa_sub(c, rne, F(0), F(1)));
    case FP_MUL: return ret(Z3_mk_fpa_mul(c, rne, F(0), F(1)));
    case FP_DIV: return ret(Z3_mk_fpa_div(c, rne, F(0), F(1)));
    case FP_UITOFP: return ret(Z3_mk_fpa_to_fp_unsigned(c, rne, E(t->k[0]), so));
    case FP_SITOFP: return ret(Z3_mk_fpa_to_fp_signed(c, rne, E(t->k[0]), so));
    case FP_FPTOUI: return z3::expr(c, Z3_mk_fpa_to_ubv(c, rtz, F(0), t->w));
    case FP_FPTOSI: return z3::expr(c, Z3_mk_fpa_to_sbv(c, rtz, F(0), t->w));
    case FP_OLT: return rb(Z3_mk_fpa_lt(c, F(0), F(1)));
    case FP_OLE: return rb(Z3_mk_fpa_leq(c, F(0), F(1)));
    case FP_OEQ: return rb(Z3_mk_fpa_eq(c, F(0), F(1)));
    case FP_UNO: { z3::expr a(c, Z3_mk_fpa_is_nan(c, F(0))), b(c, Z3_mk_fpa_is_nan(c, F(1))); return b2bv(a || b); }
    case FP_EXT: return ret(Z3_mk_fpa_to_fp_float(c, rne, F(0), s64));
    case FP_TRUNC: return ret(Z3_mk_fpa_to_fp_float(c, rne, F(0), s32));
    case FP_NEG: return ret(Z3_mk_fpa_neg(c, F(0)));
    case FP_FLOOR: return ret(Z3_mk_fpa_round_to_integral(c, z3::expr(c, Z3_mk_fpa_round_toward_negative(c)), F(0)));
    case FP_CEIL: return ret(Z3_mk_fpa_round_to_integral(c, z3::expr(c, Z3_mk_fpa_round_toward_positive(c)), F(0)));
    }
  }
  default: abort();
  }
}
static z3::expr tr(Term *root, Memo &m, const std::unordered_map<Term *, bool> *cut) {
  std::vector<Term *> st{root};
  auto E = [&](Term *x) { return m.find(x)->second; };
  while (!st.empty()) {
    Term *t = st.back();
    if (m.count(t)) { st.pop_back(); continue; }
    if (cut && cut->count(t) && t->op != T_CONST) { m.emplace(t, C().bv_const(("cut" + std::to_string(t->id)).c_str(), t->w)); st.pop_back(); continue; }
    bool ok = true;
    if (t->op == T_SELECT) {
      if (!m.count(t->k[1])) { st.push_back(t->k[1]); ok = false; }
      for (auto p : t->k[0]->k) if (!m.count(p)) { st.push_back(p); ok = false; }
    } else for (auto p : t->k) if (!m.count(p)) { st.push_back(p); ok = false; }
    if (!ok) continue;
    m.emplace(t, trOne(t, E));
    st.pop_back();
  }
  return E(root);
}
static bool hasFP(Term *root, std::unordered_map<Term *, bool> &seen) {
  std::vector<Term *> st{root};
  while (!st.empty()) {
    Term *t = st.back(); st.pop_back();
    if (!seen.emplace(t, true).second) continue;
    if (t->op == T_FP) return true;
    for (auto p : t->k) if (p->op != T_CONST) st.push_back(p);
  }
  return false;
}

// Products and quotients as free variables with the facts that hold of them: range, zero, neutral element, monotonicity
// against the operands, equal operands give equal products, and x = q*d + r with r < d.
struct Arith { std::vector<Term *> ts; };
static void collectArith(Term *root, std::unordered_map<Term *, bool> &seen, Arith &a) {
  std::vector<Term *> st{root};
  while (!st.empty()) {
    Term *t = st.back(); st.pop_back();
    if (!seen.emplace(t, true).second) continue;
    if ((t->op == T_MUL && t->w > 8) || ((t->op == T_UDIV || t->op == T_UREM) && t->w > 8)) a.ts.push_back(t);
    for (auto p : t->k) if (p->op != T_CONST) st.push_back(p);
  }
}
bool hasArith(Term *t) { std::unordered_map<Term *, bool> sa; Arith a; collectArith(t, sa, a); return !a.ts.empty(); }
static z3::expr zx(const z3::expr &e, unsigned w) { unsigned n = e.get_sort().bv_size(); return n < w ? z3::zext(e, w - n) : n > w ? e.extract(w - 1, 0) : e; }
struct Prod { z3::expr x, y, p; bool exact, mul, lin; };
static void arithLemmas(const Arith &ar, Memo &m, const std::unordered_map<Term *, bool> &cut, std::vector<z3::expr> &s, std::vector<Prod> &ps) {
  auto T = [&](Term *t) { return tr(t, m, &cut); };
  auto exactMul = [&](Term *t) { APInt l, h, l2, h2; uBounds(t->k[0], l, h); uBounds(t->k[1], l2, h2); bool o = false; (void)h.umul_ov(h2, o); return !o; };
  std::map<std::pair<Term *, Term *>, std::pair<Term *, Term *>> divs;
  for (auto t : ar.ts) {
    if (t->op == T_MUL) {
      bool ex = exactMul(t); ps.push_back({T(t->k[0]), T(t->k[1]), T(t), ex, true, true});
      if (ex) { APInt l, h, l2, h2; uBounds(t->k[0], l, h); uBounds(t->k[1], l2, h2); s.push_back(z3::ule(T(t), bvc(h * h2))); }
    } else (t->op == T_UDIV ? divs[{t->k[0], t->k[1]}].first : divs[{t->k[0], t->k[1]}].second) = t;
  }
  z3::context &c = C();
  for (auto &d : divs) {
    Term *x = d.first.first, *y = d.first.second; unsigned w = x->w; z3::expr X = T(x), Y = T(y), zero = c.bv_val(0, w);
    std::string id = std::to_string(x->id) + "_" + std::to_string(y->id);
    z3::expr q = d.second.first ? T(d.second.first) : c.bv_const(("q" + id).c_str(), w), r = d.second.second ? T(d.second.second) : c.bv_const(("r" + id).c_str(), w);
    z3::expr p = y->isConst() ? mulC(q, y->cv()) : c.bv_const(("p" + id).c_str(), w);
    if (!y->isConst()) ps.push_back({q, Y, p, true, false, true});
    if (y->isConst()) s.push_back(z3::ule(q, bvc(APInt::getAllOnes(w).udiv(y->cv()))));
    else s.push_back(z3::implies(Y == zero, q == bvc(APInt::getAllOnes(w)) && r == X));
    z3::expr e = p + r == X && z3::ult(r, Y) && z3::ule(q, X) && z3::ule(p, X);
    if (y->isConst()) s.push_back(e);
    else { // p = q*y is the product only where y is not zero; elsewhere it is unconstrained, so its lemmas below need y != 0
      s.push_back(z3::implies(Y != zero, e)); s.push_back(z3::implies(Y != zero && z3::ult(X, Y), q == zero)); s.push_back(z3::implies(Y != zero && z3::uge(X, Y), q != zero));
    }
  }
  for (size_t i = 0; i < ps.size(); i++) {
    auto &a = ps[i]; unsigned w = a.p.get_sort().bv_size(); z3::expr zero = c.bv_val(0, w), one = c.bv_val(1, w);
    if (a.mul) s.push_back(z3::implies(a.y == zero, a.p == zero));
    z3::expr nz = a.y != zero;   // see above: for quotients the facts are only stated for a nonzero divisor
    s.push_back(z3::implies(nz && a.x == zero, a.p == zero)); if (a.exact) s.push_back(z3::implies(nz && a.x != zero, z3::uge(a.p, a.x) && z3::uge(a.p, a.y)));
    s.push_back(z3::implies(a.y == one, a.p == a.x)); s.push_back(z3::implies(nz && a.x == one, a.p == a.y));
    // the low zero bits of an operand are low zero bits of the product
    s.push_back(z3::implies(nz, (a.p & (~a.y & (a.y - one))) == zero)); s.push_back(z3::implies(nz && a.x != zero, (a.p & (~a.x & (a.x - one))) == zero));
    if (a.exact) {   // 2^(n-1) <= x < 2^n and 2^(m-1) <= y < 2^m give 2^(n+m-2) <= x*y < 2^(n+m)
      auto len = [&](z3::expr e) { z3::expr n = zero; unsigned st = 1; while (st < w) st <<= 1;
        for (unsigned k = st >> 1; k; k >>= 1) { z3::expr hi = z3::lshr(e, c.bv_val(k, w)); z3::expr t = hi != zero; n = z3::ite(t, n + c.bv_val(k, w), n); e = z3::ite(t, hi, e); } return n; };   // position of the top bit
      z3::expr lx = len(a.x), ly = len(a.y), xs = z3::shl(a.x, ly), ys = z3::shl(a.y, lx);
      z3::expr nn = nz && a.x != zero;   // y <= 2^(ly+1) - 1, y >= 2^ly; the doubled shift may drop the top bit only when the bound is useless
      s.push_back(z3::implies(nn, z3::uge(a.p, xs) && z3::uge(a.p, ys) && z3::lshr(xs, ly) == a.x && z3::lshr(ys, lx) == a.y));
      z3::expr room = z3::ult(lx + ly + one + one, c.bv_val(w + 1, w));
      if (w > 7) s.push_back(z3::implies(nn && room, z3::ule(a.p, z3::shl(xs, one) - a.x) && z3::ule(a.p, z3::shl(ys, one) - a.y)));
    }
    for (size_t j = 0; j < i; j++) {
      auto &b = ps[j]; unsigned v = b.p.get_sort().bv_size(), n = std::max(v, w);
      unsigned lo = std::min(v, w);   // the low bits of a product depend on the low bits of the operands only
      if (v != w || !a.exact || !b.exact) {
        z3::expr ax = zx(a.x, lo), ay = zx(a.y, lo), bx = zx(b.x, lo), by = zx(b.y, lo);
        s.push_back(z3::implies(a.y != zero && b.y != c.bv_val(0, v) && ((ax == bx && ay == by) || (ax == by && ay == bx)), zx(a.p, lo) == zx(b.p, lo)));
      }
      if (v != w && !(a.exact && b.exact)) continue;
      z3::expr ax = zx(a.x, n), ay = zx(a.y, n), ap = zx(a.p, n), bx = zx(b.x, n), by = zx(b.y, n), bp = zx(b.p, n), z = c.bv_val(0, n);
      s.push_back(z3::implies(ay != z && ((ax == bx && ay == by) || (ax == by && ay == bx && ax != z)), ap == bp));
      if (w > 31 && v > 31) {   // neighbours: (x+1)*y = x*y + y
        z3::expr o = c.bv_val(1, n), g = ay != z;
        auto near = [&](z3::expr p1, z3::expr q1, z3::expr f1, z3::expr p2, z3::expr q2, z3::expr f2) {
          s.push_back(z3::implies(g && q1 == q2 && p1 == p2 + o, f1 == f2 + q1)); s.push_back(z3::implies(g && q1 == q2 && p2 == p1 + o, f2 == f1 + q1));
          s.push_back(z3::implies(g && q1 == q2 && p1 == p2 + o + o, f1 == f2 + q1 + q1)); s.push_back(z3::implies(g && q1 == q2 && p2 == p1 + o + o, f2 == f1 + q1 + q1)); };
        near(ax, ay, ap, bx, by, bp); near(ax, ay, ap, by, bx, bp); if (a.mul) { near(ay, ax, ap, by, bx, bp); near(ay, ax, ap, bx, by, bp); }
      }
    }
  }
}
struct CacheEnt { Res r; std::unordered_map<uint32_t, APInt> vals; };
static std::map<std::vector<uint32_t>, CacheEnt> g_cache;

double g_deadline = 1e300;
Res solve(const TV &conj, std::unordered_map<uint32_t, APInt> *vals, unsigned timeoutMs, const std::unordered_map<Term *, bool> *cut) {
  std::vector<uint32_t> key;
  if (!cut) {
    for (auto t : conj) { if (t->isZero()) return R_UNSAT; if (!t->isConst()) key.push_back(t->id); }
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    if (key.empty()) { if (vals) vals->clear(); return R_SAT; }
    auto it = g_cache.find(key);
    if (it != g_cache.end() && it->second.r != R_UNKNOWN) { g_ss.cached++; if (vals) *vals = it->second.vals; return it->second.r; }
  }
  double t0 = now();
  if (t0 > g_deadline) return R_UNKNOWN;
  timeoutMs = (unsigned)std::min((double)timeoutMs, (g_deadline - t0) * 1000 + 1000);
  Memo local; Memo &m = cut ? local : g_memo;
  std::unordered_map<Term *, bool> seen; bool fp = false;
  for (auto t : conj) fp |= hasFP(t, seen);
  z3::context &c = C();
  Arith ar; if (!cut) { std::unordered_map<Term *, bool> sa; for (auto t : conj) collectArith(t, sa, ar); }
  Res r = R_UNKNOWN;
  std::unordered_map<uint32_t, APInt> out;
  z3::tactic tac = fp ? (z3::tactic(c, "simplify") & z3::tactic(c, "fpa2bv") & z3::tactic(c, "simplify") & z3::tactic(c, "propagate-values") & z3::tactic(c, "solve-eqs") & z3::tactic(c, "elim-uncnstr") & z3::tactic(c, "simplify") & z3::tactic(c, "bit-blast") & z3::tactic(c, "sat"))
    : (z3::tactic(c, "simplify") & z3::tactic(c, "propagate-values") & z3::tactic(c, "solve-eqs") & z3::tactic(c, "elim-uncnstr") & z3::tactic(c, "simplify") & z3::tactic(c, "bit-blast") & z3::tactic(c, "sat"));
  std::vector<uint32_t> vs;
  for (auto t : conj) { auto &x = varSet(t); vs.insert(vs.end(), x.begin(), x.end()); }
  std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
  auto model = [&](z3::solver &s) {
    z3::model md = s.get_model(); out.clear();
    for (auto v : vs) {
      z3::expr e = md.eval(c.bv_const(("v" + std::to_string(v)).c_str(), g_vars[v].w), true);
      std::string str = Z3_get_numeral_string(c, e);
      out[v] = APInt(g_vars[v].w, str, 10);
    }
  };
  auto holds = [&]() { Model ev; for (auto &x : out) ev.v[x.first] = x.second; for (auto t : conj) if (!ev.eval(t).isOne()) return false; return true; };
  if (!ar.ts.empty() && !fp && g_arith) try {   // first with products and quotients abstracted, refined by facts about the values of spurious models
    std::unordered_map<Term *, bool> ac; for (auto t : ar.ts) ac[t] = true;
    Memo am; std::vector<z3::expr> base; std::vector<Prod> ps;
    for (auto t : conj) base.push_back(bv2b(tr(t, am, &ac)));
    arithLemmas(ar, am, ac, base, ps);
    double t1 = now();
    auto left = [&]() { return std::min((double)timeoutMs, 60000.0) - (now() - t1) * 1000; };
    for (int round = 0; round < 60 && r == R_UNKNOWN && left() > 0; round++) {
      bool again = false; std::vector<std::pair<APInt, APInt>> at;
      for (int mode = 0; mode < 3 && r == R_UNKNOWN && left() > 0; mode++) {   // 0: plain; 1, 2: one operand of every product fixed to the model's value, which leaves linear constraints
        z3::solver s = tac.mk_solver(); z3::params p(c); p.set("timeout", (unsigned)std::max(1.0, mode ? std::min(left(), 3000.0) : left())); s.set(p);
        for (auto &e : base) s.add(e);
        if (mode) for (size_t i = 0; i < ps.size(); i++) if (ps[i].lin) { bool fx = (mode == 1) == (ps[i].mul); if (fx) { s.add(ps[i].x == bvc(at[i].first)); s.add(ps[i].p == bvc(at[i].first) * ps[i].y); } else { s.add(ps[i].y == bvc(at[i].second)); s.add(ps[i].p == bvc(at[i].second) * ps[i].x); } }
        
        double ta = now();
        z3::check_result cr = s.check();
        if (getenv("RSX_DUMP")) { fprintf(stderr, "abstract query: %d.%d %d %.1f s\n", round, mode, (int)cr, now() - ta); if (!mode && !round) for (auto t : conj) { auto z = termStr(t, 6); fprintf(stderr, "   %s\n", z.substr(0, 400).c_str()); } }
        if (!mode && cr == z3::unsat) { r = R_UNSAT; g_ss.arithUnsat++; break; }
        if (cr != z3::sat) { if (!mode) break; else continue; }
        model(s); if (holds()) { r = R_SAT; (mode ? g_ss.arithFix : g_ss.arithSat)++; break; }
        if (!mode) {   // edge values and values near the model's
          auto keep = out; static uint64_t rs = 88172645463325252ull; auto rnd = [&]() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
          double ts = now();
          for (int k = 0; k < 2000 && now() - ts < 1.0; k++) {
            for (auto &o : out) {
              unsigned w = o.second.getBitWidth(); const APInt &mv = keep[o.first]; APInt e(w, 0);
              auto R = [&]() { APInt x(w, 0); for (unsigned b = 0; b < w; b += 64) x = (w > 64 ? x.shl(64) : x) | APInt(64, rnd()).zextOrTrunc(w); return x; };
              switch (rnd() % 10) {
              case 0: e = APInt(w, rnd() % 4); break; case 1: e = APInt::getAllOnes(w) - (rnd() % 4); break; case 2: e = APInt(w, 1).shl(rnd() % w); break;
              case 3: e = APInt(w, 1).shl(rnd() % w) - 1; break; case 4: e = R(); break; case 5: e = R().lshr(rnd() % w); break; case 6: e = R() | APInt(w, 1).shl(w - 1); break;
              case 7: e = APInt::getAllOnes(w).shl(rnd() % w); break;
              default: e = mv; break; }
              o.second = e;
            }
            if (holds()) { r = R_SAT; g_ss.arithTry++; break; }
          }
          if (r == R_SAT) break;
          out = keep;
        }
        z3::model md = s.get_model(); std::vector<std::pair<APInt, APInt>> cur;
        auto val = [&](const z3::expr &e) { std::string str = Z3_get_numeral_string(c, md.eval(e, true)); return APInt(e.get_sort().bv_size(), str, 10); };
        for (auto &q : ps) {
          APInt x0 = val(q.x), y0 = val(q.y), p0 = val(q.p); cur.push_back({x0, y0});
          if (getenv("RSX_DUMP")) { llvm::SmallString<64> a, b, d; x0.toStringUnsigned(a, 16); y0.toStringUnsigned(b, 16); p0.toStringUnsigned(d, 16); fprintf(stderr, "   %s %s * %s = %s %s\n", q.mul ? "mul" : "div", a.c_str(), b.c_str(), d.c_str(), x0 * y0 == p0 ? "" : "WRONG"); }
          if (x0 * y0 == p0) { continue; }
          again = true; z3::expr X = bvc(x0), Y = bvc(y0), XY = bvc(x0 * y0), ok = q.mul ? c.bool_val(true) : q.y != c.bv_val(0, y0.getBitWidth());
          base.push_back(z3::implies(ok && q.x == X, q.p == X * q.y)); base.push_back(z3::implies(ok && q.y == Y, q.p == q.x * Y));
          if (q.exact) {
            bool ov = false; (void)x0.umul_ov(y0, ov);
            if (!ov) { base.push_back(z3::implies(ok && z3::uge(q.x, X) && z3::uge(q.y, Y), z3::uge(q.p, XY))); base.push_back(z3::implies(ok && z3::ule(q.x, X) && z3::ule(q.y, Y), z3::ule(q.p, XY))); }
            else base.push_back(z3::implies(ok, z3::ult(q.x, X) || z3::ult(q.y, Y)));
          }
        }
        if (!mode) { at = cur; bool any = false; for (auto &q : ps) any |= q.lin; if (!any) mode = 3; }
      }
      if (!again) break;
    }
  } catch (z3::exception &e) { r = R_UNKNOWN; }
  if (r == R_UNKNOWN) try {
  z3::solver s = tac.mk_solver();
  z3::params p(c); p.set("timeout", timeoutMs); s.set(p);
    for (auto t : conj) s.add(bv2b(tr(t, m, cut)));
    z3::check_result cr = s.check();
    r = cr == z3::sat ? R_SAT : cr == z3::unsat ? R_UNSAT : R_UNKNOWN;
    if (r == R_SAT && !cut) {
      model(s);
    }
  } catch (z3::exception &e) { r = R_UNKNOWN; if (getenv("RSX_DUMP")) fprintf(stderr, "z3: %s\n", e.msg()); }
  double dt = now() - t0;
  g_ss.queries++; g_ss.time += dt; if (dt > g_ss.maxTime) g_ss.maxTime = dt;
  if (r == R_SAT) g_ss.sat++; else if (r == R_UNSAT) g_ss.unsat++; else g_ss.unknown++;
  if (!cut) { CacheEnt ce; ce.r = r; ce.vals = out; g_cache[key] = ce; }
  if (vals) *vals = out;
  return r;
}
