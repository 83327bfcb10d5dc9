#pragma once
#include "term.h"
#include <algorithm>
APInt evalOpPub(Term *t, const std::function<const APInt &(Term *)> &E);
// Pool of simulation rounds: values of every term under N assignments.
struct Pool {
  unsigned N;
  std::unordered_map<uint32_t, APInt> fixed;   // variables pinned to a value
  uint64_t seed;
  std::unordered_map<Term *, std::vector<uint64_t>> val;
  Pool(unsigned n, uint64_t s) : N(n), seed(s) {}
  static uint64_t rnd(uint64_t &x) { x += 0x9e3779b97f4a7c15ULL; uint64_t z = x; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  void setVar(Term *t, std::vector<uint64_t> &o) {
    unsigned W = (t->w + 63) / 64; auto it = fixed.find(t->a);
    uint64_t mask = t->w % 64 ? (1ull << (t->w % 64)) - 1 : ~0ull;
    for (unsigned r = 0; r < N; r++) {
      for (unsigned j = 0; j < W; j++) {
        uint64_t x = seed * 1000003 + t->a * 7919ull + r * 104729ull * 65537 + j * 15485863ull, v = rnd(x);
        if (it != fixed.end()) v = it->second.getRawData()[j];
        else {
          unsigned pat = r % 32;
          if (pat == 0) v = 0; else if (pat == 1) v = ~0ull;
          else if (pat < 6) { uint64_t k = rnd(x) % 8; v = k == 0 ? 0 : k == 1 ? ~0ull : k == 2 ? 1 : k == 3 ? ~1ull : k == 4 ? 1ull << 63 : k == 5 ? ~(1ull << 63) : v; if (t->w < 64 && k == 4) v = 1ull << (t->w - 1); }
        }
        o[r * W + j] = j == W - 1 ? v & mask : v;
      }
    }
  }
  const std::vector<uint64_t> &get(Term *root) {
    std::vector<Term *> st{root};
    while (!st.empty()) {
      Term *t = st.back();
      if (val.count(t)) { st.pop_back(); continue; }
      bool ok = true;
      for (auto p : t->k) {
        if (p->op == T_ARR) { for (auto q : p->k) if (q->op != T_CONST && !val.count(q)) { st.push_back(q); ok = false; } }
        else if (!val.count(p)) { st.push_back(p); ok = false; }
      }
      if (!ok) continue;
      calc(t);
      st.pop_back();
    }
    return val[root];
  }
  APInt ap(Term *t, unsigned r) {
    if (t->op == T_CONST) return t->cv();
    unsigned W = (t->w + 63) / 64; auto &v = val.find(t)->second;
    return APInt(t->w, llvm::ArrayRef<uint64_t>(&v[r * W], W));
  }
  void calc(Term *t) {
    unsigned W = (t->w + 63) / 64;
    std::vector<uint64_t> o((size_t)N * W);
    uint64_t mask = t->w % 64 ? (1ull << (t->w % 64)) - 1 : ~0ull;
    if (t->op == T_CONST) { for (unsigned r = 0; r < N; r++) for (unsigned j = 0; j < W; j++) o[r * W + j] = t->cv().getRawData()[j]; val.emplace(t, std::move(o)); return; }
    if (t->op == T_VAR) { setVar(t, o); val.emplace(t, std::move(o)); return; }
    bool small = t->w <= 64; for (auto p : t->k) if (p->w > 64) small = false;
    if (t->op == T_FP) small = false;
    if (small) {
      std::vector<const uint64_t *> k; for (auto p : t->k) k.push_back(p->op == T_ARR ? nullptr : val.find(p)->second.data());
      switch (t->op) {
      case T_LIN: for (unsigned r = 0; r < N; r++) { uint64_t x = t->c[0].getZExtValue(); for (size_t i = 0; i < k.size(); i++) x += t->c[i + 1].getZExtValue() * k[i][r]; o[r] = x & mask; } break;
      case T_MUL: for (unsigned r = 0; r < N; r++) o[r] = (k[0][r] * k[1][r]) & mask; break;
      case T_UDIV: for (unsigned r = 0; r < N; r++) o[r] = k[1][r] ? k[0][r] / k[1][r] : mask; break;
      case T_UREM: for (unsigned r = 0; r < N; r++) o[r] = k[1][r] ? k[0][r] % k[1][r] : k[0][r]; break;
      case T_AND: for (unsigned r = 0; r < N; r++) { uint64_t x = k[0][r]; for (size_t i = 1; i < k.size(); i++) x &= k[i][r]; o[r] = x; } break;
      case T_OR: for (unsigned r = 0; r < N; r++) { uint64_t x = k[0][r]; for (size_t i = 1; i < k.size(); i++) x |= k[i][r]; o[r] = x; } break;
      case T_XOR: for (unsigned r = 0; r < N; r++) { uint64_t x = k[0][r]; for (size_t i = 1; i < k.size(); i++) x ^= k[i][r]; o[r] = x; } break;
      case T_SHL: for (unsigned r = 0; r < N; r++) o[r] = k[1][r] >= t->w ? 0 : (k[0][r] << k[1][r]) & mask; break;
      case T_LSHR: for (unsigned r = 0; r < N; r++) o[r] = k[1][r] >= t->w ? 0 : k[0][r] >> k[1][r]; break;
      case T_ASHR: for (unsigned r = 0; r < N; r++) { int64_t x = (int64_t)(k[0][r] << (64 - t->w)) >> (64 - t->w); o[r] = (uint64_t)(x >> std::min<uint64_t>(k[1][r], t->w - 1)) & mask; } break;
      case T_CONCAT: for (unsigned r = 0; r < N; r++) { uint64_t x = 0; unsigned p = 0; for (size_t i = 0; i < k.size(); i++) { x |= k[i][r] << p; p += t->k[i]->w; } o[r] = x & mask; } break;
      case T_EXTRACT: for (unsigned r = 0; r < N; r++) o[r] = (k[0][r] >> t->a) & mask; break;
      case T_SEXT: { unsigned sw = t->k[0]->w; for (unsigned r = 0; r < N; r++) o[r] = (uint64_t)((int64_t)(k[0][r] << (64 - sw)) >> (64 - sw)) & mask; break; }
      case T_ITE: for (unsigned r = 0; r < N; r++) o[r] = k[0][r] ? k[1][r] : k[2][r]; break;
      case T_EQ: for (unsigned r = 0; r < N; r++) o[r] = k[0][r] == k[1][r]; break;
      case T_ULT: for (unsigned r = 0; r < N; r++) o[r] = k[0][r] < k[1][r]; break;
      case T_SLT: { unsigned sw = 64 - t->k[0]->w; for (unsigned r = 0; r < N; r++) o[r] = (int64_t)(k[0][r] << sw) < (int64_t)(k[1][r] << sw); break; }
      case T_SELECT: { auto &e = t->k[0]->k; for (unsigned r = 0; r < N; r++) { uint64_t i = k[1][r]; Term *x = i < e.size() ? e[i] : e[0]; o[r] = x->op == T_CONST ? x->cv().getZExtValue() : val.find(x)->second[r]; } break; }
      default: abort();
      }
    } else {
      std::unordered_map<Term *, APInt> tmp;
      for (unsigned r = 0; r < N; r++) {
        tmp.clear();
        std::function<const APInt &(Term *)> E = [&](Term *x) -> const APInt & { auto it = tmp.find(x); if (it != tmp.end()) return it->second; return tmp.emplace(x, ap(x, r)).first->second; };
        APInt v = evalOpPub(t, E);
        for (unsigned j = 0; j < W; j++) o[r * W + j] = v.getRawData()[j];
      }
    }
    val.emplace(t, std::move(o));
  }
  uint64_t sig(Term *t) { auto &v = get(t); uint64_t h = t->w; for (auto x : v) h = (h ^ x) * 0x9fb21c651e98df25ULL, h ^= h >> 29; return h; }
};

