// Interpreter for the x86 inline assembly found in the IR (AT&T syntax).
#include "exec.h"
#include <llvm/IR/InlineAsm.h>
#include <algorithm>
#include <cstring>
using namespace llvm;

static Term *ex(Term *t, int lo, int w) { return mkExtract(t, lo, w); }
static Term *dword(Term *t, int i) { return ex(t, 32 * i, 32); }
static Term *rol(Term *x, int n) { return n ? mkConcat({ex(x, x->w - n, n), ex(x, 0, x->w - n)}) : x; }
static Term *ror(Term *x, int n) { return rol(x, (x->w - n) % x->w); }
static Term *add(Term *a, Term *b) { return mkAdd(a, b); }

// ---- AES byte functions, built from the definition ----
static uint8_t gm(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = (a << 1) ^ ((a & 0x80) ? 0x1b : 0); b >>= 1; } return r; }
static uint8_t SB[256], IS[256];
static Term *byteTable(int which, int coef) {   // 0: coef*S[x], 1: coef*IS[x], 2: coef*x
  static Term *tab[3][16]; static bool init = false;
  if (!init) {
    init = true;
    for (int x = 0; x < 256; x++) {
      uint8_t inv = 0; if (x) for (int y = 1; y < 256; y++) if (gm(x, y) == 1) { inv = y; break; }
      uint8_t s = 0x63; for (int i = 0; i < 5; i++) s ^= (uint8_t)((inv << i) | (inv >> (8 - i)));
      SB[x] = s;
    }
    for (int x = 0; x < 256; x++) IS[SB[x]] = x;
  }
  Term *&t = tab[which][coef];
  if (!t) { TV e; for (int x = 0; x < 256; x++) e.push_back(mkC(8, gm(which == 0 ? SB[x] : which == 1 ? IS[x] : x, coef))); t = mkArr(e); }
  return t;
}
static Term *look(int which, int coef, Term *x) {
  if (which == 2 && coef == 1) return x;
  return mkSelect(byteTable(which, coef), x);
}
static Term *aes(const std::string &op, Term *st, Term *key) {
  TV b, o(16); for (int i = 0; i < 16; i++) b.push_back(ex(st, 8 * i, 8));
  bool dec = op.compare(0, 6, "aesdec") == 0, last = op.size() > 6 && op.substr(op.size() - 4) == "last";
  TV sh(16);
  for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) sh[4 * c + r] = dec ? b[4 * ((c + 4 - r) % 4) + r] : b[4 * ((c + r) % 4) + r];
  static const int me[4] = {2, 3, 1, 1}, md[4] = {14, 11, 13, 9};
  for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) {
    Term *k = ex(key, 8 * (4 * c + r), 8);
    if (last) { o[4 * c + r] = mkXor(look(dec, 1, sh[4 * c + r]), k); continue; }
    TV x{k}; for (int j = 0; j < 4; j++) x.push_back(look(dec, (dec ? md : me)[(j - r + 4) % 4], sh[4 * c + j]));
    o[4 * c + r] = mkBitN(T_XOR, x);
  }
  return mkConcat(o);
}
static Term *aesimc(Term *st) {
  TV o(16); static const int md[4] = {14, 11, 13, 9};
  for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) {
    TV x; for (int j = 0; j < 4; j++) x.push_back(look(2, md[(j - r + 4) % 4], ex(st, 8 * (4 * c + j), 8)));
    o[4 * c + r] = mkBitN(T_XOR, x);
  }
  return mkConcat(o);
}
// SHA
static Term *ch(Term *x, Term *y, Term *z) { return mkXor(mkAnd(x, y), mkAnd(mkNot(x), z)); }
static Term *maj(Term *x, Term *y, Term *z) { return mkBitN(T_XOR, {mkAnd(x, y), mkAnd(x, z), mkAnd(y, z)}); }
static Term *par(Term *x, Term *y, Term *z) { return mkBitN(T_XOR, {x, y, z}); }
static Term *cat4(Term *d0, Term *d1, Term *d2, Term *d3) { return mkConcat({d0, d1, d2, d3}); }

static Term *sha1rnds4(Term *dst, Term *src, int imm) {
  static const uint32_t K[4] = {0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xca62c1d6};
  Term *A = dword(dst, 3), *B = dword(dst, 2), *C = dword(dst, 1), *D = dword(dst, 0), *E = nullptr;
  Term *W[4] = {dword(src, 3), dword(src, 2), dword(src, 1), dword(src, 0)};
  for (int i = 0; i < 4; i++) {
    Term *f = imm == 0 ? ch(B, C, D) : imm == 2 ? maj(B, C, D) : par(B, C, D);
    Term *t = add(add(add(f, rol(A, 5)), W[i]), mkC(32, K[imm]));
    if (i) t = add(t, E);
    E = D; D = C; C = rol(B, 30); B = A; A = t;
  }
  return cat4(D, C, B, A);
}
static Term *sha256rnds2(Term *dst, Term *src, Term *x0) {
  Term *A = dword(src, 3), *B = dword(src, 2), *E = dword(src, 1), *F = dword(src, 0);
  Term *C = dword(dst, 3), *D = dword(dst, 2), *G = dword(dst, 1), *H = dword(dst, 0);
  for (int i = 0; i < 2; i++) {
    Term *wk = dword(x0, i);
    Term *s1 = mkBitN(T_XOR, {ror(E, 6), ror(E, 11), ror(E, 25)}), *s0 = mkBitN(T_XOR, {ror(A, 2), ror(A, 13), ror(A, 22)});
    Term *t1 = add(add(add(ch(E, F, G), s1), wk), H);
    Term *na = add(add(t1, maj(A, B, C)), s0), *ne = add(t1, D);
    H = G; G = F; F = E; E = ne; D = C; C = B; B = A; A = na;
  }
  return cat4(F, E, B, A);
}
static Term *sig0(Term *x) { return mkBitN(T_XOR, {ror(x, 7), ror(x, 18), mkLShr(x, mkC(32, 3))}); }
static Term *sig1(Term *x) { return mkBitN(T_XOR, {ror(x, 17), ror(x, 19), mkLShr(x, mkC(32, 10))}); }

struct AOp { enum K { IMM, REG, XMM, MEM } k; uint64_t imm = 0; std::string reg; int op = -1; Term *addr = nullptr; };

struct Asm {
  State &s; const CallBase &cb; const std::vector<Term *> &args;
  std::map<std::string, Term *> gpr, xmm;
  struct Operand { bool mem = false, out = false, indirect = false; std::string reg; Term *v = nullptr; unsigned w = 64; int tied = -1; };
  std::vector<Operand> ops;
  Term *fCF = nullptr, *fZF = nullptr, *fSF = nullptr, *fOF = nullptr;
  std::vector<Term *> stack;
  Asm(State &s, const CallBase &cb, const std::vector<Term *> &a) : s(s), cb(cb), args(a) {}
  [[noreturn]] void bad(const std::string &m) { throw EngineError{"inline assembly: " + m}; }

  static std::string trim(std::string x) { size_t a = x.find_first_not_of(" \t\r"); if (a == std::string::npos) return ""; size_t b = x.find_last_not_of(" \t\r"); return x.substr(a, b - a + 1); }
  static std::string canonReg(std::string r, unsigned &w) {
    static const std::map<std::string, std::pair<const char *, unsigned>> m = {
      {"rax", {"rax", 64}}, {"eax", {"rax", 32}}, {"ax", {"rax", 16}}, {"al", {"rax", 8}}, {"rbx", {"rbx", 64}}, {"ebx", {"rbx", 32}}, {"bx", {"rbx", 16}}, {"bl", {"rbx", 8}},
      {"rcx", {"rcx", 64}}, {"ecx", {"rcx", 32}}, {"cx", {"rcx", 16}}, {"cl", {"rcx", 8}}, {"rdx", {"rdx", 64}}, {"edx", {"rdx", 32}}, {"dx", {"rdx", 16}}, {"dl", {"rdx", 8}},
      {"rsi", {"rsi", 64}}, {"esi", {"rsi", 32}}, {"rdi", {"rdi", 64}}, {"edi", {"rdi", 32}}, {"rbp", {"rbp", 64}}, {"ebp", {"rbp", 32}}, {"rsp", {"rsp", 64}}};
    auto it = m.find(r);
    if (it != m.end()) { w = it->second.second; return it->second.first; }
    if (r.size() >= 2 && r[0] == 'r' && isdigit(r[1])) { w = 64; if (r.back() == 'd') { w = 32; r.pop_back(); } else if (r.back() == 'w') { w = 16; r.pop_back(); } else if (r.back() == 'b') { w = 8; r.pop_back(); } return r; }
    w = 0; return r;
  }
  Term *getReg(const std::string &r) { unsigned w; std::string c = canonReg(r, w); if (!w) bad("register " + r); auto it = gpr.find(c); Term *v = it == gpr.end() ? (gpr[c] = mkVar(64, "asm_" + c)) : it->second; return w == 64 ? v : mkTrunc(v, w); }
  void setReg(const std::string &r, Term *v) {
    unsigned w; std::string c = canonReg(r, w);
    if (w == 64) gpr[c] = v; else if (w == 32) gpr[c] = mkZExt(v, 64);
    else { Term *o = getReg(c); gpr[c] = mkConcat({v, mkExtract(o, w, 64 - w)}); }
  }
  Term *getX(const std::string &r) { auto it = xmm.find(r); return it == xmm.end() ? (xmm[r] = mkVar(128, "asm_" + r)) : it->second; }

  uint64_t num(std::string x) {
    x = trim(x); bool neg = false;
    if (x.size() && x[0] == '-') { neg = true; x = x.substr(1); }
    uint64_t v; char *e;
    if (x.compare(0, 2, "0b") == 0 || x.compare(0, 2, "0B") == 0) v = strtoull(x.c_str() + 2, &e, 2);
    else v = strtoull(x.c_str(), &e, 0);
    if (*e) bad("number " + x);
    return neg ? -v : v;
  }
  int opRef(const std::string &x, size_t &i, char &mod) {  // at '$': $N or ${N:m}
    i++; mod = 0; int n = 0;
    if (x[i] == '{') { i++; while (isdigit(x[i])) n = n * 10 + x[i++] - '0'; if (x[i] == ':') { mod = x[i + 1]; i += 2; } if (x[i] != '}') bad("operand " + x); i++; }
    else { if (!isdigit(x[i])) bad("operand " + x); while (isdigit(x[i])) n = n * 10 + x[i++] - '0'; }
    return n;
  }
  Term *regValue(const std::string &tok) {   // %reg or $N as 64-bit
    std::string t = trim(tok); if (t.empty()) bad("empty register");
    if (t[0] == '%') { return mkZExt(getReg(t.substr(1)), 64); }
    if (t[0] == '$') { size_t i = 0; char m; int n = opRef(t, i, m); Operand &o = ops.at(n); return mkZExt(getOp(n), 64); }
    bad("register " + t);
  }
  Term *getOp(int n) { Operand &o = ops.at(n); if (!o.reg.empty()) return o.w < 64 ? mkTrunc(getReg(o.reg), o.w) : getReg(o.reg); return o.v; }
  void setOp(int n, Term *v, unsigned w) {
    Operand &o = ops.at(n);
    if (!o.reg.empty()) { std::string r = o.reg; gpr[r] = w == 64 ? v : mkZExt(v, 64); return; }
    o.v = v->w == o.w ? v : v->w > o.w ? mkTrunc(v, o.w) : mkZExt(v, o.w);
  }
  AOp parse(std::string x) {
    x = trim(x); AOp r;
    if (x.compare(0, 2, "$$") == 0) { r.k = AOp::IMM; r.imm = num(x.substr(2)); return r; }
    size_t par = x.find('(');
    if (par == std::string::npos) {
      if (x[0] == '%') {
        std::string g = x.substr(1);
        if (g.compare(0, 3, "xmm") == 0) { r.k = AOp::XMM; r.reg = g; return r; }
        r.k = AOp::REG; r.reg = g; return r;
      }
      size_t dp = x.find('$');
      if (dp != std::string::npos) {   // [disp]$N or disp+$N
        std::string pre = trim(x.substr(0, dp)); size_t i = dp; char m; int n = opRef(x, i, m);
        Operand &o = ops.at(n); std::string rest = trim(x.substr(i));
        if (o.mem) { r.k = AOp::MEM; r.addr = o.v; if (!pre.empty()) { if (pre.back() == '+') pre.pop_back(); r.addr = mkAdd(r.addr, mkC(64, num(pre))); } if (!rest.empty()) bad("operand " + x); return r; }
        if (!pre.empty()) bad("operand " + x);
        r.k = AOp::REG; r.op = n; if (m) r.reg = std::string(1, m); return r;
      }
      bad("operand " + x);
    }
    r.k = AOp::MEM;
    std::string disp = trim(x.substr(0, par)), in = x.substr(par + 1); in = in.substr(0, in.rfind(')'));
    std::vector<std::string> p; size_t st = 0; for (size_t i = 0; i <= in.size(); i++) if (i == in.size() || in[i] == ',') { p.push_back(trim(in.substr(st, i - st))); st = i + 1; }
    Term *a = mkC(64, disp.empty() ? 0 : num(disp));
    if (!p[0].empty()) a = mkAdd(a, regValue(p[0]));
    if (p.size() > 1 && !p[1].empty()) a = mkAdd(a, mkMul(regValue(p[1]), mkC(64, p.size() > 2 && !p[2].empty() ? num(p[2]) : 1)));
    r.addr = a; return r;
  }
  unsigned widthOf(const AOp &o) {
    if (o.k == AOp::REG) { if (o.op >= 0) { if (o.reg == "k") return 32; if (o.reg == "q") return 64; if (o.reg == "w") return 16; if (o.reg == "b") return 8; return ops[o.op].w; } unsigned w; canonReg(o.reg, w); return w; }
    if (o.k == AOp::XMM) return 128;
    return 0;
  }
  Term *get(const AOp &o, unsigned w) {
    switch (o.k) {
    case AOp::IMM: return mkConst(APInt(64, o.imm).trunc(std::min(w, 64u)));
    case AOp::REG: { Term *v = o.op >= 0 ? getOp(o.op) : getReg(o.reg); return v->w == w ? v : v->w > w ? mkTrunc(v, w) : mkZExt(v, w); }
    case AOp::XMM: { Term *v = getX(o.reg); return w == 128 ? v : mkTrunc(v, w); }
    case AOp::MEM: return memLoad(s, o.addr, w / 8);
    }
    bad("get");
  }
  void put(const AOp &o, Term *v) {
    switch (o.k) {
    case AOp::REG: if (o.op >= 0) setOp(o.op, v, v->w); else setReg(o.reg, v); return;
    case AOp::XMM: xmm[o.reg] = v; return;
    case AOp::MEM: memStore(s, o.addr, v); return;
    default: bad("store to immediate");
    }
  }
  void flagsSub(Term *a, Term *b, bool setCF = true) {
    Term *r = mkSub(a, b); fZF = mkEq(a, b); if (setCF) fCF = mkUlt(a, b); fSF = ex(r, r->w - 1, 1);
    fOF = mkXor(fSF, mkSlt(a, b));
  }
  void flagsLogic(Term *r) { fZF = mkEq(r, mkC(r->w, 0)); fCF = mkC(1, 0); fSF = ex(r, r->w - 1, 1); fOF = mkC(1, 0); }
  bool cond(const std::string &c) {
    auto need = [&](Term *t) { if (!t) bad("flag used before it is set"); return t; };
    Term *t = nullptr;
    if (c == "z" || c == "e") t = need(fZF);
    else if (c == "nz" || c == "ne") t = mkNot(need(fZF));
    else if (c == "b" || c == "c" || c == "nae") t = need(fCF);
    else if (c == "ae" || c == "nb" || c == "nc") t = mkNot(need(fCF));
    else if (c == "be" || c == "na") t = mkOr(need(fCF), need(fZF));
    else if (c == "a" || c == "nbe") t = mkNot(mkOr(need(fCF), need(fZF)));
    else if (c == "s") t = need(fSF);
    else if (c == "ns") t = mkNot(need(fSF));
    else if (c == "l" || c == "nge") t = mkXor(need(fSF), need(fOF));
    else if (c == "ge" || c == "nl") t = mkNot(mkXor(need(fSF), need(fOF)));
    else if (c == "le" || c == "ng") t = mkOr(need(fZF), mkXor(need(fSF), need(fOF)));
    else if (c == "g" || c == "nle") t = mkNot(mkOr(need(fZF), mkXor(need(fSF), need(fOF))));
    else bad("condition " + c);
    if (!t->isConst()) bad("branch on a symbolic flag");
    return !t->isZero();
  }

  void setup() {
    auto *ia = cast<InlineAsm>(cb.getCalledOperand());
    unsigned ai = 0;
    std::vector<std::pair<int, unsigned>> outs;
    Type *rt = cb.getType(); unsigned oi = 0;
    auto outW = [&](unsigned i) -> unsigned { Type *t = rt; if (auto *st = dyn_cast<StructType>(rt)) t = st->getElementType(i); return t->isPointerTy() ? 64 : t->getPrimitiveSizeInBits().getFixedValue(); };
    for (auto &c : ia->ParseConstraints()) {
      if (c.Type == InlineAsm::isClobber) continue;
      Operand o;
      std::string code = c.Codes.empty() ? "" : c.Codes[0];
      if (code.size() > 2 && code[0] == '{') { unsigned w; o.reg = canonReg(code.substr(1, code.size() - 2), w); }
      bool regOk = code == "r" || code == "q" || code == "a" || code == "b" || code == "c" || code == "d" || code == "S" || code == "D" || code == "R" || code == "x" || !o.reg.empty();
      if (c.Type == InlineAsm::isOutput) {
        o.out = true;
        if (c.isIndirect) { o.mem = true; o.v = args.at(ai++); }
        else { o.w = outW(oi++); o.v = mkC(o.w, 0); }
      } else if (c.Type == InlineAsm::isInput) {
        if (c.isIndirect) { o.mem = true; o.v = args.at(ai++); }
        else {
          o.v = args.at(ai++); o.w = o.v->w;
          if (c.hasMatchingInput()) {}
          if (!code.empty() && isdigit(code[0])) { int t = atoi(code.c_str()); o.tied = t; setOp(t, o.v, o.v->w); }
          else if (code == "m") bad("direct memory operand");
          else if (!regOk && code != "i" && code != "n" && code != "g" && code != "rm") bad("constraint " + code);
        }
        if (!o.reg.empty() && !o.mem) gpr[o.reg] = mkZExt(o.v, 64);
      } else bad("constraint kind");
      ops.push_back(o);
    }
  }
  Term *run() {
    setup();
    auto *ia = cast<InlineAsm>(cb.getCalledOperand());
    std::string src = std::string(ia->getAsmString());
    std::vector<std::string> lines; std::string cur;
    for (char c : src) { if (c == '\n' || c == ';') { lines.push_back(trim(cur)); cur.clear(); } else cur += c; }
    lines.push_back(trim(cur));
    std::map<std::string, size_t> labels;
    std::vector<std::pair<std::string, size_t>> numLabels;
    std::vector<std::string> prog;
    for (auto &l0 : lines) {
      std::string l = l0; size_t h = l.find('#'); if (h != std::string::npos) l = trim(l.substr(0, h));
      for (;;) {
        size_t e = 0; while (e < l.size() && (isalnum(l[e]) || l[e] == '_' || l[e] == '.' || l[e] == '$' || l[e] == '{' || l[e] == '}' || (l[e] == ':' && e && l[e - 1] == '{'))) e++;
        if (e && e < l.size() && l[e] == ':') { std::string n = l.substr(0, e); labels[n] = prog.size(); numLabels.push_back({n, prog.size()}); l = trim(l.substr(e + 1)); } else break;
      }
      if (!l.empty()) prog.push_back(l);
    }
    uint64_t cnt = 0;
    for (size_t pc = 0; pc < prog.size();) {
      if (++cnt > 100000) bad("loop");
      S.instrs++;
      std::string l = prog[pc++];
      size_t sp = l.find_first_of(" \t");
      std::string op = l.substr(0, sp), rest = sp == std::string::npos ? "" : trim(l.substr(sp));
      std::vector<std::string> a; int depth = 0; std::string c2;
      for (char ch : rest) { if (ch == '(') depth++; if (ch == ')') depth--; if (ch == ',' && !depth) { a.push_back(trim(c2)); c2.clear(); } else c2 += ch; }
      if (!trim(c2).empty()) a.push_back(trim(c2));
      if (op[0] == 'j' ) {
        std::string tgt = a.at(0); size_t to = (size_t)-1;
        if (labels.count(tgt)) to = labels[tgt];
        if (isdigit(tgt[0])) { std::string nn = tgt.substr(0, tgt.size() - 1); for (auto &p : numLabels) if (p.first == nn) { if (tgt.back() == 'f' && p.second >= pc && to == (size_t)-1) to = p.second; if (tgt.back() == 'b' && p.second < pc) to = p.second; } }
        if (to == (size_t)-1) bad("label " + tgt);
        if (op == "jmp" || cond(op.substr(1))) pc = to;
        continue;
      }
      exec1(op, a);
    }
    // outputs
    TV outs; for (auto &o : ops) if (o.out && !o.mem) { Term *v = o.reg.empty() ? o.v : getReg(o.reg); outs.push_back(v->w > o.w ? mkTrunc(v, o.w) : v); }
    if (outs.empty()) return nullptr;
    return mkConcat(outs);
  }
  void exec1(const std::string &op0, std::vector<std::string> &a) {
    std::string op = op0;
    if (op == "cpuid") {
      Term *l = getReg("eax"); if (!l->isConst()) bad("cpuid leaf");
      uint64_t leaf = l->cv().getZExtValue(); uint64_t v = O.cpu ? 0xffffffff : 0;
      if (leaf == 0 || leaf == 0x80000000) { setReg("eax", mkC(32, leaf | 0x1f)); setReg("ebx", mkC(32, 0x756e6547)); setReg("ecx", mkC(32, 0x6c65746e)); setReg("edx", mkC(32, 0x49656e69)); return; }
      for (auto r : {"eax", "ebx", "ecx", "edx"}) setReg(r, mkC(32, v));
      return;
    }
    if (op == "nop" || op == "emms" || op == "lfence" || op == "mfence" || op == "cld") return;
    if (op == "ret" || op == "call" || op == "syscall") bad("instruction " + op);
    std::vector<AOp> x; for (auto &t : a) x.push_back(parse(t));
    auto n = x.size();
    if (n == 0) bad("instruction " + op);
    // SSE
    auto D = [&]() { return get(x[n - 1], 128); };
    auto SRC = [&]() { return get(x[n - 2], 128); };
    bool sse = false; for (auto &o : x) if (o.k == AOp::XMM) sse = true;
    if (sse) {
      auto imm = [&]() { return (int)(x[0].imm & 255); };
      auto lanes = [&](int w, auto f) { TV r; Term *d = D(), *s2 = SRC(); for (int i = 0; i < 128 / w; i++) r.push_back(f(ex(d, i * w, w), ex(s2, i * w, w))); put(x[n - 1], mkConcat(r)); };
      if (op == "movdqa" || op == "movdqu" || op == "movaps" || op == "movups" || op == "movapd" || op == "movupd" || op == "lddqu") { put(x[1], get(x[0], 128)); return; }
      if (op == "movd") { if (x[1].k == AOp::XMM) put(x[1], mkZExt(get(x[0], 32), 128)); else put(x[1], x[1].k == AOp::REG && widthOf(x[1]) == 64 ? mkZExt(mkTrunc(get(x[0], 128), 32), 64) : mkTrunc(get(x[0], 128), 32)); return; }
      if (op == "movq") { if (x[1].k == AOp::XMM) put(x[1], mkZExt(get(x[0], 64), 128)); else put(x[1], mkTrunc(get(x[0], 128), 64)); return; }
      if (op == "pxor" || op == "xorps" || op == "xorpd") { put(x[1], mkXor(D(), SRC())); return; }
      if (op == "por" || op == "orps") { put(x[1], mkOr(D(), SRC())); return; }
      if (op == "pand" || op == "andps") { put(x[1], mkAnd(D(), SRC())); return; }
      if (op == "pandn") { put(x[1], mkAnd(mkNot(D()), SRC())); return; }
      if (op == "paddd") { lanes(32, [](Term *p, Term *q) { return mkAdd(p, q); }); return; }
      if (op == "paddq") { lanes(64, [](Term *p, Term *q) { return mkAdd(p, q); }); return; }
      if (op == "paddb") { lanes(8, [](Term *p, Term *q) { return mkAdd(p, q); }); return; }
      if (op == "psubd") { lanes(32, [](Term *p, Term *q) { return mkSub(p, q); }); return; }
      if (op == "pshufd") { Term *q = get(x[1], 128); TV r; for (int i = 0; i < 4; i++) r.push_back(dword(q, (imm() >> (2 * i)) & 3)); put(x[2], mkConcat(r)); return; }
      if (op == "pshufb") {
        Term *d = D(), *m = SRC(); TV r;
        for (int i = 0; i < 16; i++) {
          Term *c = ex(m, 8 * i, 8);
          if (!c->isConst()) bad("pshufb with a symbolic mask");
          uint64_t v = c->cv().getZExtValue(); r.push_back(v & 0x80 ? mkC(8, 0) : ex(d, 8 * (v & 15), 8));
        }
        put(x[1], mkConcat(r)); return;
      }
      if (op == "palignr") { Term *cat = mkConcat({get(x[1], 128), get(x[2], 128)}); int k = imm() * 8; Term *r = k >= 256 ? mkC(128, 0) : mkExtract(mkLShr(cat, mkC(256, k)), 0, 128); put(x[2], r); return; }
      if (op == "punpcklqdq" || op == "movlhps") { put(x[1], mkConcat({ex(D(), 0, 64), ex(SRC(), 0, 64)})); return; }
      if (op == "punpckhqdq") { put(x[1], mkConcat({ex(D(), 64, 64), ex(SRC(), 64, 64)})); return; }
      if (op == "punpckldq") { Term *d = D(), *q = SRC(); put(x[1], cat4(dword(d, 0), dword(q, 0), dword(d, 1), dword(q, 1))); return; }
      if (op == "punpckhdq") { Term *d = D(), *q = SRC(); put(x[1], cat4(dword(d, 2), dword(q, 2), dword(d, 3), dword(q, 3))); return; }
      if (op == "pslldq") { put(x[1], mkShl(get(x[1], 128), mkC(128, std::min(imm() * 8, 128)))); return; }
      if (op == "psrldq") { put(x[1], mkLShr(get(x[1], 128), mkC(128, std::min(imm() * 8, 128)))); return; }
      if ((op == "pslld" || op == "psrld" || op == "psllq" || op == "psrlq") && x[0].k == AOp::IMM) {
        int w = op.back() == 'd' ? 32 : 64; TV r; Term *d = get(x[1], 128);
        for (int i = 0; i < 128 / w; i++) { Term *e = ex(d, i * w, w); r.push_back(op[2] == 'l' ? mkShl(e, mkC(w, imm())) : mkLShr(e, mkC(w, imm()))); }
        put(x[1], mkConcat(r)); return;
      }
      if (op == "pblendw") { Term *d = get(x[2], 128), *q = get(x[1], 128); TV r; for (int i = 0; i < 8; i++) r.push_back(ex((imm() >> i) & 1 ? q : d, 16 * i, 16)); put(x[2], mkConcat(r)); return; }
      if (op == "pinsrd") { Term *d = get(x[2], 128), *q = get(x[1], 32); TV r; for (int i = 0; i < 4; i++) r.push_back(i == (imm() & 3) ? q : dword(d, i)); put(x[2], mkConcat(r)); return; }
      if (op == "pextrd") { put(x[2], dword(get(x[1], 128), imm() & 3)); return; }
      if (op == "aesenc" || op == "aesenclast" || op == "aesdec" || op == "aesdeclast") { Term *k = SRC(), *d = D(); put(x[1], aes(op, d, k)); return; }
      if (op == "aesimc") { put(x[1], aesimc(SRC())); return; }
      if (op == "sha1rnds4") { put(x[2], sha1rnds4(get(x[2], 128), get(x[1], 128), imm() & 3)); return; }
      if (op == "sha1nexte") { Term *d = D(), *q = SRC(); put(x[1], cat4(dword(q, 0), dword(q, 1), dword(q, 2), add(dword(q, 3), rol(dword(d, 3), 30)))); return; }
      if (op == "sha1msg1") {
        Term *d = D(), *q = SRC(); Term *W0 = dword(d, 3), *W1 = dword(d, 2), *W2 = dword(d, 1), *W3 = dword(d, 0), *W4 = dword(q, 3), *W5 = dword(q, 2);
        put(x[1], cat4(mkXor(W5, W3), mkXor(W4, W2), mkXor(W3, W1), mkXor(W2, W0))); return;
      }
      if (op == "sha1msg2") {
        Term *d = D(), *q = SRC(); Term *W13 = dword(q, 2), *W14 = dword(q, 1), *W15 = dword(q, 0);
        Term *W16 = rol(mkXor(dword(d, 3), W13), 1), *W17 = rol(mkXor(dword(d, 2), W14), 1), *W18 = rol(mkXor(dword(d, 1), W15), 1), *W19 = rol(mkXor(dword(d, 0), W16), 1);
        put(x[1], cat4(W19, W18, W17, W16)); return;
      }
      if (op == "sha256rnds2") { put(x[n - 1], sha256rnds2(D(), SRC(), getX("xmm0"))); return; }
      if (op == "sha256msg1") {
        Term *d = D(), *q = SRC(); Term *W[5] = {dword(d, 0), dword(d, 1), dword(d, 2), dword(d, 3), dword(q, 0)};
        put(x[1], cat4(add(W[0], sig0(W[1])), add(W[1], sig0(W[2])), add(W[2], sig0(W[3])), add(W[3], sig0(W[4])))); return;
      }
      if (op == "sha256msg2") {
        Term *d = D(), *q = SRC(); Term *W14 = dword(q, 2), *W15 = dword(q, 3);
        Term *W16 = add(dword(d, 0), sig1(W14)), *W17 = add(dword(d, 1), sig1(W15)), *W18 = add(dword(d, 2), sig1(W16)), *W19 = add(dword(d, 3), sig1(W17));
        put(x[1], cat4(W16, W17, W18, W19)); return;
      }
      bad("instruction " + op);
    }
    // integer
    unsigned w = 0; for (auto &o : x) w = std::max(w, widthOf(o));
    static const std::set<std::string> base = {"add", "sub", "cmp", "and", "or", "xor", "test", "mov", "shl", "sal", "shr", "sar", "rol", "ror", "inc", "dec", "neg", "not", "lea", "push", "pop", "adc", "sbb", "bswap", "mul", "xchg"};
    if (!base.count(op)) {
      char sfx = op.back(); std::string b = op.substr(0, op.size() - 1);
      if (base.count(b)) { op = b; w = sfx == 'q' ? 64 : sfx == 'l' ? 32 : sfx == 'w' ? 16 : sfx == 'b' ? 8 : w; }
      else bad("instruction " + op);
    }
    if (!w) bad("operand size of " + op0);
    if (op == "push") { stack.push_back(mkZExt(get(x[0], w), 64)); return; }
    if (op == "pop") { if (stack.empty()) bad("pop"); Term *v = stack.back(); stack.pop_back(); put(x[0], mkTrunc(v, w)); return; }
    if (op == "mov") { put(x[1], get(x[0], w)); return; }
    if (op == "lea") { put(x[1], mkTrunc(x[0].addr, w)); return; }
    if (op == "cmp") { flagsSub(get(x[1], w), get(x[0], w)); return; }
    if (op == "test") { flagsLogic(mkAnd(get(x[1], w), get(x[0], w))); return; }
    if (op == "add") { Term *p = get(x[1], w), *q = get(x[0], w), *r = mkAdd(p, q); put(x[1], r); fZF = mkEq(r, mkC(w, 0)); fCF = mkUlt(r, p); fSF = ex(r, w - 1, 1); fOF = nullptr; return; }
    if (op == "adc" || op == "sbb") {
      Term *p = get(x[1], w), *q = get(x[0], w); if (!fCF) bad("carry");
      Term *P = mkZExt(p, w + 1), *Q = mkZExt(q, w + 1), *Cc = mkZExt(fCF, w + 1);
      Term *R = op == "adc" ? mkAdd(mkAdd(P, Q), Cc) : mkSub(mkSub(P, Q), Cc);
      Term *r = mkTrunc(R, w); put(x[1], r); fCF = ex(R, w, 1); fZF = mkEq(r, mkC(w, 0)); fSF = ex(r, w - 1, 1); fOF = nullptr; return;
    }
    if (op == "sub") { Term *p = get(x[1], w), *q = get(x[0], w); flagsSub(p, q); put(x[1], mkSub(p, q)); return; }
    if (op == "and" || op == "or" || op == "xor") { Term *p = get(x[1], w), *q = get(x[0], w), *r = op == "and" ? mkAnd(p, q) : op == "or" ? mkOr(p, q) : mkXor(p, q); put(x[1], r); flagsLogic(r); return; }
    if (op == "inc") { Term *r = mkAdd(get(x[0], w), mkC(w, 1)); put(x[0], r); fZF = mkEq(r, mkC(w, 0)); fSF = ex(r, w - 1, 1); fOF = nullptr; return; }
    if (op == "dec") { Term *r = mkSub(get(x[0], w), mkC(w, 1)); put(x[0], r); fZF = mkEq(r, mkC(w, 0)); fSF = ex(r, w - 1, 1); fOF = nullptr; return; }
    if (op == "neg") { Term *p = get(x[0], w); put(x[0], mkNeg(p)); fCF = mkNot(mkEq(p, mkC(w, 0))); fZF = mkEq(p, mkC(w, 0)); fSF = fOF = nullptr; return; }
    if (op == "not") { put(x[0], mkNot(get(x[0], w))); return; }
    if (op == "bswap") { Term *p = get(x[0], w); TV k; for (int i = (int)w / 8 - 1; i >= 0; i--) k.push_back(ex(p, i * 8, 8)); put(x[0], mkConcat(k)); return; }
    if (op == "xchg") { Term *p = get(x[0], w), *q = get(x[1], w); put(x[0], q); put(x[1], p); return; }
    if (op == "shl" || op == "sal" || op == "shr" || op == "sar" || op == "rol" || op == "ror") {
      AOp &d = x[n - 1]; Term *c = n == 1 ? mkC(8, 1) : get(x[0], 8); if (!c->isConst()) bad("symbolic shift");
      unsigned k = c->cv().getZExtValue() & (w == 64 ? 63 : 31); Term *p = get(d, w), *r = p;
      if (op == "shl" || op == "sal") r = mkShl(p, mkC(w, k)); else if (op == "shr") r = mkLShr(p, mkC(w, k)); else if (op == "sar") r = mkAShr(p, mkC(w, k)); else if (op == "rol") r = rol(p, k % w); else r = ror(p, k % w);
      put(d, r); if (k && op[0] == 's') { fZF = mkEq(r, mkC(w, 0)); fSF = ex(r, w - 1, 1); fCF = fOF = nullptr; } return;
    }
    bad("instruction " + op0);
  }
};
Term *execAsm(State &s, const CallBase &cb, const std::vector<Term *> &ops) { Asm a(s, cb, ops); return a.run(); }
