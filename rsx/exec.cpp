#include "exec.h"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>

using namespace llvm;
Options O;
Stats S;
std::vector<Violation> g_viol;
static Module *M;
static const DataLayout *DL;
static std::unordered_map<Function *, FnInfo *> fnInfos;
static std::unordered_map<uint64_t, Function *> fnByAddr;
static std::unordered_map<Function *, uint64_t> fnAddr;
static std::unordered_map<GlobalVariable *, uint64_t> globAddr;
static std::unordered_map<std::string, Function *> overrides;
static std::vector<std::unique_ptr<State>> work;
static double tStart;
std::vector<std::string> g_samples;   // JSON
std::set<std::string> g_violKeys;
uint64_t g_startPaths = 0;

static FnInfo *info(Function *f) {
  auto it = fnInfos.find(f);
  if (it != fnInfos.end()) return it->second;
  auto *fi = new FnInfo; fi->f = f;
  for (auto &a : f->args()) fi->num[&a] = fi->n++;
  for (auto &i : instructions(f)) if (!i.getType()->isVoidTy()) fi->num[&i] = fi->n++;
  fnInfos[f] = fi;
  return fi;
}
static uint32_t bitsOf(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (auto *st = dyn_cast<StructType>(t)) { uint32_t n = 0; for (auto *e : st->elements()) n += bitsOf(e); return n; }
  if (auto *at = dyn_cast<ArrayType>(t)) return at->getNumElements() * bitsOf(at->getElementType());
  std::string s; raw_string_ostream os(s); t->print(os);
  throw EngineError{"unsupported type " + s};
}
std::string hexOf(const APInt &v) {
  unsigned n = (v.getBitWidth() + 7) / 8; std::string r; char b[4];
  APInt x = v.zext(std::max(n * 8, v.getBitWidth()));
  for (unsigned i = 0; i < n; i++) { snprintf(b, 4, "%02x", (unsigned)x.extractBitsAsZExtValue(8, i * 8)); r += b; }
  return r;  // little-endian byte order
}
static std::string whereOf(State &s) {
  std::string r; int n = 0;
  for (int i = (int)s.st.size() - 1; i >= 0 && n < 4; i--, n++) {
    Frame &f = s.st[i];
    if (!r.empty()) r += " < ";
    r += f.fi->f->getName().str();
    if (f.bb && f.it != f.bb->end()) if (auto &dl = f.it->getDebugLoc()) r += ":" + std::to_string(dl.getLine());
  }
  return r;
}
static std::vector<std::pair<std::string, std::string>> dumpInputs(State &s, Model &m) {
  std::vector<std::pair<std::string, std::string>> r;
  for (auto &i : s.inputs) { std::string h; for (auto t : i.t) h += hexOf(m.eval(t)); r.push_back({i.name, h}); }
  return r;
}
void addViolation(State &s, const std::string &kind, const std::string &msg, Model *m = nullptr) {
  Violation v; v.kind = kind; v.msg = msg; v.where = whereOf(s);
  v.inputs = dumpInputs(s, m ? *m : *s.model);
  std::string key = kind + "|" + msg + "|" + v.where;
  if (g_violKeys.insert(key).second) g_viol.push_back(v);
  if (O.verbose) fprintf(stderr, "VIOL %s: %s at %s\n", kind.c_str(), msg.c_str(), v.where.c_str());
}
[[noreturn]] static void violate(State &s, const std::string &kind, const std::string &msg) { addViolation(s, kind, msg); throw PathEnd{"violation"}; }

// ---- path condition ----
TV slicePC(State &s, const std::vector<Term *> &conds) {
  std::unordered_set<uint32_t> vars; TV out; std::vector<char> used(s.pc.size(), 0);
  for (auto c : conds) for (auto v : varSet(c)) vars.insert(v);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) {
      auto &vs = varSet(s.pc[i]); bool hit = false;
      for (auto v : vs) if (vars.count(v)) { hit = true; break; }
      if (hit) { used[i] = 1; ch = true; out.push_back(s.pc[i]); for (auto v : vs) vars.insert(v); }
    }
  }
  return out;
}
static void addPC(State &s, Term *c) {
  if (c->isConst()) return;
  if (c->op == T_AND) { for (auto k : c->k) addPC(s, k); return; }
  if (s.known.count(c)) return;
  s.pc.push_back(c); s.known[c] = true; s.known[mkNot(c)] = false;
  // not(or(...)) -> conjunction of negations
  if (c->op == T_XOR && c->k.size() == 2 && c->k[0]->isOnes() && c->k[1]->op == T_OR) for (auto k : c->k[1]->k) { s.known[k] = false; s.known[mkNot(k)] = true; }
}
static Res query(State &s, Term *c, std::shared_ptr<Model> *out) {
  auto it = s.known.find(c);
  if (it != s.known.end() && !it->second) return R_UNSAT;
  TV q = slicePC(s, {c}); q.push_back(c);
  std::unordered_map<uint32_t, APInt> vals;
  Res r = solve(q, &vals, g_queryTimeout);
  if (r == R_SAT && out) {
    auto m = std::make_shared<Model>(); m->v = s.model->v;
    for (auto &p : vals) m->v.insert_or_assign(p.first, p.second);
    for (auto t : q) if (!m->eval(t).isOne()) throw EngineError{"solver model does not satisfy the query: " + termStr(t)};
    *out = m;
  }
  return r;
}
bool branchOn(State &s, Term *cond) {
  if (cond->isConst()) return cond->cv().isOne();
  auto it = s.known.find(cond);
  if (it != s.known.end()) return it->second;
  S.branches++;
  bool v = s.model->eval(cond).isOne();
  Term *other = v ? mkNot(cond) : cond;
  std::shared_ptr<Model> om;
  Res r = query(s, other, &om);
  if (r == R_SAT) {
    auto ns = std::make_unique<State>(s);
    ns->model = om; ns->depth++;
    addPC(*ns, other);
    ns->known[cond] = !v;
    work.push_back(std::move(ns));
    S.forks++;
  } else if (r == R_UNKNOWN) S.undecided.push_back("branch at " + whereOf(s));
  s.depth++;
  if (r != R_UNSAT || hasArith(cond)) addPC(s, v ? cond : mkNot(cond));   // implied facts help the abstraction of products
  s.known[cond] = v;
  return v;
}
APInt concretise(State &s, Term *t) {
  if (t->isConst()) return t->cv();
  APInt v = s.model->eval(t);
  branchOn(s, mkEq(t, mkConst(v)));
  return v;
}

// ---- memory ----
static ObjP newObj(State &s, uint64_t size, ObjKind k, const std::string &name, uint64_t align = 16) {
  auto o = std::make_shared<Obj>();
  align = std::max<uint64_t>(align, 16);
  s.nextAddr = (s.nextAddr + align - 1) / align * align;
  o->base = s.nextAddr; o->size = size; o->kind = k; o->name = name;
  o->cells.resize(size);
  s.nextAddr += size + 4096 + (size >> 1);
  s.mem.push_back(o);
  return o;
}
static int findObj(State &s, uint64_t a) {
  size_t lo = 0, hi = s.mem.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (s.mem[m]->base <= a) lo = m + 1; else hi = m; }
  return (int)lo - 1;
}
static Obj &wr(State &s, int oi) {
  ObjP &p = s.mem[oi];
  if (p.use_count() > 1) { auto n = std::make_shared<Obj>(*p); n->snaps.clear(); p = n; }
  else p->snaps.clear();
  return *p;
}
static Term *freshUninit(uint32_t w) { static int n = 0; return mkVar(w, "uninit" + std::to_string(n++)); }
static Term *cellByte(Cell &c) {
  if (!c.t) { c.t = freshUninit(8); c.i = 0; }
  if (c.t->w == 8) return c.t;
  return mkExtract(c.t, c.i * 8, 8);
}
static Term *readCells(Obj &o, uint64_t off, uint32_t n) {
  Cell &c0 = o.cells[off];
  if (c0.t && c0.i == 0 && c0.t->w == n * 8) {
    bool same = true;
    for (uint32_t i = 1; i < n && same; i++) same = o.cells[off + i].t == c0.t && o.cells[off + i].i == i;
    if (same) return c0.t;
  }
  if (n == 1) return cellByte(c0);
  TV k;
  for (uint32_t i = 0; i < n;) {
    Cell &c = o.cells[off + i];
    if (!c.t || c.t->w == 8) { k.push_back(cellByte(c)); i++; continue; }
    uint32_t j = 1;
    while (i + j < n && o.cells[off + i + j].t == c.t && o.cells[off + i + j].i == c.i + j) j++;
    k.push_back(mkExtract(c.t, c.i * 8, j * 8));
    i += j;
  }
  return mkConcat(k);
}
static void writeCells(Obj &o, uint64_t off, Term *v) {
  uint32_t n = v->w / 8;
  for (uint32_t i = 0; i < n; i++) { o.cells[off + i].t = v; o.cells[off + i].i = i; }
}
struct Loc { int oi; Term *off; uint64_t coff; };   // off==null: concrete
static Loc resolve(State &s, Term *addr, uint64_t n, const char *what, bool write) {
  APInt av = s.model->eval(addr);
  uint64_t a = av.getZExtValue();
  int oi = findObj(s, a);
  auto bad = [&](const std::string &m) { violate(s, "memory", std::string(what) + ": " + m); };
  S.memChecks++;
  if (a < 4096) bad("null pointer access");
  if (oi < 0) bad("wild pointer");
  Obj &o = *s.mem[oi];
  if (o.dead) { if (a - o.base < o.size + 64) bad(o.kind == O_HEAP ? "use after free of " + o.name : "use of dead stack object " + o.name); bad("wild pointer"); }
  if (a - o.base > o.size || n > o.size - (a - o.base)) bad("out of bounds access to " + o.name + " (size " + std::to_string(o.size) + ", offset " + std::to_string(a - o.base) + ", " + std::to_string(n) + " bytes)");
  if (write && o.ro) bad("write to constant " + o.name);
  if (addr->isConst()) return {oi, nullptr, a - o.base};
  Term *off = mkSub(addr, mkC(64, o.base));
  if (off->isConst()) return {oi, nullptr, off->cv().getZExtValue()};
  S.boundsChecks++;
  Term *inb = mkUle(off, mkC(64, o.size - n));
  branchOn(s, inb);
  return {oi, off, 0};
}
// symbolic offset: index term and entries
static void stride(State &s, Loc &l, uint32_t n, uint64_t &st, uint64_t &o0, Term *&idx, uint64_t &cnt) {
  Obj &o = *s.mem[l.oi];
  APInt c; std::vector<std::pair<Term *, APInt>> kids;
  linView(l.off, c, kids);
  unsigned tz = 63;
  for (auto &p : kids) tz = std::min(tz, p.second.countr_zero());
  st = 1ull << tz;
  while (st > o.size && st > 1) { st >>= 1; tz--; }
  o0 = c.getZExtValue() & (st - 1);
  std::vector<std::pair<Term *, APInt>> kk;
  for (auto &p : kids) {
    Term *t = p.first;
    if (t->w < 64) t = mkZExt(t, 64);
    kk.push_back({t, p.second.ashr(tz)});
  }
  APInt cc = (c - o0).ashr(tz);
  idx = mkLin(64, cc, kk);
  cnt = o.size < o0 + n ? 0 : (o.size - o0 - n) / st + 1;
}
Term *memLoad(State &s, Term *addr, uint32_t n) {
  Loc l = resolve(s, addr, n, "read", false);
  ObjP op = s.mem[l.oi];
  Obj &o = *op;
  if (!l.off) return readCells(o, l.coff, n);
  uint64_t st, o0, cnt; Term *idx;
  stride(s, l, n, st, o0, idx, cnt);
  // narrow the entry range by cheap bounds on the index
  APInt lo, hi; uBounds(idx, lo, hi);
  if (hi.uge(cnt)) hi = APInt(64, cnt - 1);
  if (lo.uge(cnt)) lo = APInt(64, 0);
  uint64_t L = lo.getZExtValue(), H = hi.getZExtValue();
  if (H - L + 1 > 1u << 16) throw EngineError{"symbolic read over more than 65536 entries at " + whereOf(s)};
  auto key = std::make_tuple(st, n, o0 + st * L, (uint32_t)(H - L + 1));
  Term *&arr = o.snaps[key];
  if (!arr) { TV e; for (uint64_t j = L; j <= H; j++) e.push_back(readCells(o, o0 + st * j, n)); arr = mkArr(e); }
  Term *ix = L ? mkSub(idx, mkC(64, L)) : idx;
  return mkSelect(arr, ix);
}
void memStore(State &s, Term *addr, Term *v) {
  uint32_t n = v->w / 8;
  Loc l = resolve(s, addr, n, "write", true);
  if (!l.off) { writeCells(wr(s, l.oi), l.coff, v); return; }
  uint64_t st, o0, cnt; Term *idx;
  stride(s, l, n, st, o0, idx, cnt);
  APInt lo, hi; uBounds(idx, lo, hi);
  if (hi.uge(cnt)) hi = APInt(64, cnt - 1);
  if (lo.uge(cnt)) lo = APInt(64, 0);
  if (st < n && lo != hi) {  // overlapping entries: byte by byte
    // each byte position p gets byte b of v when off == p - b
    Obj &o = wr(s, l.oi);
    std::vector<Term *> nw(o.size);
    for (uint64_t p = 0; p < o.size; p++) {
      Term *t = cellByte(o.cells[p]);
      for (uint32_t b = 0; b < n; b++) if (p >= b) { uint64_t at = p - b; if (at % st == o0 % st && at + n <= o.size) t = mkIte(mkEq(l.off, mkC(64, at)), mkExtract(v, 8 * b, 8), t); }
      nw[p] = t;
    }
    for (uint64_t p = 0; p < o.size; p++) { o.cells[p].t = nw[p]; o.cells[p].i = 0; }
    return;
  }
  Obj &o = wr(s, l.oi);
  unsigned nb = 1; while ((1ull << nb) <= hi.getZExtValue()) nb++;
  Term *ix = mkExtract(idx, 0, nb);
  for (uint64_t j = lo.getZExtValue(); j <= hi.getZExtValue(); j++) {
    uint64_t at = o0 + st * j;
    Term *old = readCells(o, at, n);
    writeCells(o, at, mkIte(mkEq(ix, mkC(nb, j)), v, old));
  }
}

// ---- constants ----
static Term *constTerm(State &s, const Constant *c);
static APInt gepOff(const GEPOperator *g) { APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) throw EngineError{"non-constant GEP expression"}; return off; }
static Term *constTerm(State &s, const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) return mkConst(ci->getValue());
  if (auto *cf = dyn_cast<ConstantFP>(c)) return mkConst(cf->getValueAPF().bitcastToAPInt());
  if (isa<ConstantPointerNull>(c)) return mkC(64, 0);
  if (isa<UndefValue>(c)) return mkC(bitsOf(c->getType()), 0);
  if (isa<ConstantAggregateZero>(c)) return mkC(bitsOf(c->getType()), 0);
  if (auto *gv = dyn_cast<GlobalVariable>(c)) { auto it = globAddr.find(const_cast<GlobalVariable *>(gv)); if (it == globAddr.end()) throw EngineError{"global without storage " + gv->getName().str()}; return mkC(64, it->second); }
  if (auto *f = dyn_cast<Function>(c)) return mkC(64, fnAddr[const_cast<Function *>(f)]);
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return constTerm(s, ga->getAliasee());
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { TV k; for (auto &o : cs->operands()) k.push_back(constTerm(s, cast<Constant>(o))); return mkConcat(k); }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: return mkAdd(constTerm(s, ce->getOperand(0)), mkConst(gepOff(cast<GEPOperator>(ce))));
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
      Term *t = constTerm(s, ce->getOperand(0)); uint32_t w = bitsOf(ce->getType());
      return t->w == w ? t : t->w > w ? mkTrunc(t, w) : mkZExt(t, w);
    }
    case Instruction::Add: return mkAdd(constTerm(s, ce->getOperand(0)), constTerm(s, ce->getOperand(1)));
    case Instruction::Sub: return mkSub(constTerm(s, ce->getOperand(0)), constTerm(s, ce->getOperand(1)));
    case Instruction::Trunc: return mkTrunc(constTerm(s, ce->getOperand(0)), bitsOf(ce->getType()));
    default: break;
    }
  }
  std::string str; raw_string_ostream os(str); c->print(os);
  throw EngineError{"unsupported constant " + str};
}
static void initCells(State &s, Obj &o, uint64_t off, const Constant *c) {
  Type *t = c->getType();
  uint64_t sz = DL->getTypeAllocSize(t);
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { for (uint64_t i = 0; i < sz; i++) o.cells[off + i] = {mkC(8, 0), 0}; return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initCells(s, o, off + i * es, ca->getOperand(i)); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = cd->getElementByteSize(); for (unsigned i = 0; i < cd->getNumElements(); i++) initCells(s, o, off + i * es, cd->getElementAsConstant(i)); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    for (uint64_t i = 0; i < sz; i++) o.cells[off + i] = {mkC(8, 0), 0};
    auto *sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) initCells(s, o, off + sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  Term *v = constTerm(s, c);
  uint64_t st = DL->getTypeStoreSize(t) * 8;
  if (v->w < st) v = mkZExt(v, st);
  writeCells(o, off, v);
}

// ---- execution ----
static Term *val(State &s, Frame &f, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constTerm(s, c);
  auto it = f.fi->num.find(v);
  if (it == f.fi->num.end()) throw EngineError{"value without number"};
  Term *t = f.regs[it->second];
  if (!t) throw EngineError{"use of undefined register in " + f.fi->f->getName().str()};
  return t;
}
static void setv(Frame &f, const Value *v, Term *t) { f.regs[f.fi->num.at(v)] = t; }
static void pushCall(State &s, Function *fn, const TV &args, CallBase *site) {
  FnInfo *fi = info(fn);
  fi->entered = true;
  Frame f; f.fi = fi; f.regs.assign(fi->n, nullptr); f.site = site;
  unsigned i = 0;
  for (auto &a : fn->args()) {
    Term *t = i < args.size() ? args[i] : mkC(bitsOf(a.getType()), 0);
    if (a.hasByValAttr()) {
      uint64_t sz = DL->getTypeAllocSize(a.getParamByValType());
      Loc l = resolve(s, t, sz, "read", false);
      uint64_t base = concretise(s, t).getZExtValue(); (void)base;
      ObjP src = s.mem[l.oi];
      ObjP o = newObj(s, sz, O_STACK, fn->getName().str() + ".byval");
      for (uint64_t b = 0; b < sz; b++) o->cells[b] = src->cells[l.coff + b];
      f.allocas.push_back(o->base);
      t = mkC(64, o->base);
    }
    f.regs[i++] = t;
  }
  f.bb = &fn->getEntryBlock(); f.it = f.bb->begin();
  if (s.st.size() > 600) violate(s, "recursion", "call depth exceeds 600");
  s.st.push_back(std::move(f));
}
static void gotoBB(State &s, Frame &f, BasicBlock *to) {
  BasicBlock *from = f.bb;
  std::vector<std::pair<const Value *, Term *>> ph;
  auto it = to->begin();
  for (; auto *p = dyn_cast<PHINode>(&*it); ++it) ph.push_back({p, val(s, f, p->getIncomingValueForBlock(from))});
  for (auto &x : ph) setv(f, x.first, x.second);
  f.prev = from; f.bb = to; f.it = it;
}
static std::string cstr(State &s, Term *p) {
  if (!p->isConst()) return "?";
  uint64_t a = p->cv().getZExtValue(); int oi = findObj(s, a);
  if (oi < 0) return "?";
  std::string r; Obj &o = *s.mem[oi];
  for (uint64_t i = a - o.base; i < o.size; i++) { Term *t = cellByte(o.cells[i]); if (!t->isConst() || t->isZero()) break; r += (char)t->cv().getZExtValue(); }
  return r;
}
static uint64_t conc64(State &s, Term *t) { return concretise(s, t).getZExtValue(); }

static void copyMem(State &s, Term *dst, Term *src, Term *len) {
  uint64_t n = conc64(s, len);
  if (!n) return;
  if (n > (1u << 24)) violate(s, "memory", "copy of an absurd length " + std::to_string(n));
  // check whole ranges; symbolic base: go byte by byte
  Loc ls = resolve(s, src, n, "read (memcpy)", false);
  Loc ld = resolve(s, dst, n, "write (memcpy)", true);
  if (!ls.off && !ld.off) {
    std::vector<Cell> tmp; ObjP so = s.mem[ls.oi];
    for (uint64_t i = 0; i < n; i++) { Cell &c = so->cells[ls.coff + i]; if (!c.t) cellByte(c); tmp.push_back(c); }
    Obj &o = wr(s, ld.oi);
    for (uint64_t i = 0; i < n; i++) o.cells[ld.coff + i] = tmp[i];
    return;
  }
  TV tmp;
  for (uint64_t i = 0; i < n; i++) tmp.push_back(memLoad(s, mkAdd(src, mkC(64, i)), 1));
  for (uint64_t i = 0; i < n; i++) memStore(s, mkAdd(dst, mkC(64, i)), tmp[i]);
}
static void setMem(State &s, Term *dst, Term *byte, Term *len) {
  uint64_t n = conc64(s, len);
  if (!n) return;
  if (n > (1u << 24)) violate(s, "memory", "fill of an absurd length " + std::to_string(n));
  Loc l = resolve(s, dst, n, "write (memset)", true);
  if (l.off) { for (uint64_t i = 0; i < n; i++) memStore(s, mkAdd(dst, mkC(64, i)), byte); return; }
  Obj &o = wr(s, l.oi);
  for (uint64_t i = 0; i < n; i++) o.cells[l.coff + i] = {byte, 0};
}
static TV loadBytes(State &s, Term *p, uint64_t n) {
  TV r; if (!n) return r;
  Loc l = resolve(s, p, n, "read", false);
  if (l.off) { for (uint64_t i = 0; i < n; i++) r.push_back(memLoad(s, mkAdd(p, mkC(64, i)), 1)); return r; }
  Obj &o = *s.mem[l.oi];
  for (uint64_t i = 0; i < n; i++) r.push_back(cellByte(o.cells[l.coff + i]));
  return r;
}
static void killObj(State &s, uint64_t base) { int oi = findObj(s, base); Obj &o = wr(s, oi); o.dead = true; o.cells.clear(); o.cells.shrink_to_fit(); }

static Term *symInput(State &s, uint32_t w, const std::string &name) {
  // variables are shared between paths: the k-th input of a given name and width is one variable
  static std::unordered_map<std::string, Term *> cache;
  Term *&t = cache[name + "#" + std::to_string(w)];
  if (!t) t = mkVar(w, name);
  return t;
}
static Term *doMalloc(State &s, Term *size, const std::string &nm, bool zero) {
  uint64_t n = conc64(s, size);
  if (s.mallocFail > 0) {
    std::string name = "malloc" + std::to_string(s.mallocNo);
    Term *v = symInput(s, 8, name);
    bool fail = branchOn(s, mkEq(v, mkC(8, 1)));
    s.mallocNo++;
    s.inputs.push_back({name, 8, {v}});
    if (fail) { s.mallocFail--; return mkC(64, 0); }
  }
  if (n > (1u << 28)) return mkC(64, 0);
  ObjP o = newObj(s, n, O_HEAP, nm);
  if (zero) for (auto &c : o->cells) c = {mkC(8, 0), 0};
  s.live++;
  return mkC(64, o->base);
}
static void doFree(State &s, uint64_t a) {
  if (!a) return;
  int oi = findObj(s, a);
  if (oi < 0 || s.mem[oi]->kind != O_HEAP || s.mem[oi]->base != a) violate(s, "memory", "free of a pointer that is not a heap block");
  if (s.mem[oi]->dead) violate(s, "memory", "double free");
  killObj(s, a); s.live--;
}

// decide a batch of equalities; report violation on the first difference
static void checkEq(State &s, const TV &a, const TV &b, const std::string &msg) {
  S.eqs++; S.eqBytes += a.size();
  // whole-chunk comparison first, then bytes
  for (size_t i = 0; i < a.size();) {
    size_t step = 1;
    for (size_t w : {8, 4}) if (i + w <= a.size()) {
      TV x(a.begin() + i, a.begin() + i + w), y(b.begin() + i, b.begin() + i + w);
      Term *tx = mkConcat(x), *ty = mkConcat(y);
      if (tx == ty) { step = w; S.eqStruct++; goto next; }
      if (tx->op != T_CONCAT && ty->op != T_CONCAT) {
        std::unordered_map<uint32_t, APInt> cex;
        int r = decideEq(tx, ty, s, cex);
        if (r == 1) { step = w; goto next; }
        if (r == 0) { Model m; m.v = s.model->v; for (auto &p : cex) m.v.insert_or_assign(p.first, p.second); addViolation(s, "assert", msg, &m); throw PathEnd{"violation"}; }
      }
    }
    {
      if (a[i] == b[i]) { S.eqStruct++; goto next; }
      std::unordered_map<uint32_t, APInt> cex;
      int r = decideEq(a[i], b[i], s, cex);
      if (r == 0) { Model m; m.v = s.model->v; for (auto &p : cex) m.v.insert_or_assign(p.first, p.second); addViolation(s, "assert", msg + " (byte " + std::to_string(i) + ")", &m); throw PathEnd{"violation"}; }
      if (r < 0) S.undecided.push_back("equality " + msg + " byte " + std::to_string(i));
    }
  next:
    i += step;
  }
}
static void checkAssert(State &s, Term *c, const std::string &msg) {
  S.asserts++;
  if (c->isConst()) { S.assertsTrivial++; if (c->isZero()) violate(s, "assert", msg); return; }
  auto it = s.known.find(c);
  if (it != s.known.end()) { S.assertsTrivial++; if (!it->second) violate(s, "assert", msg); return; }
  if (!s.model->eval(c).isOne()) { addViolation(s, "assert", msg); throw PathEnd{"violation"}; }
  // conjunctions are decided one by one; equalities through the equality engine
  if (c->op == T_AND) { for (auto k : c->k) { S.asserts--; checkAssert(s, k, msg); } S.asserts++; return; }
  if (c->op == T_EQ && c->k[0]->w >= 1) {
    std::unordered_map<uint32_t, APInt> cex;
    int r = decideEq(c->k[0], c->k[1], s, cex);
    if (r == 0) { Model m; m.v = s.model->v; for (auto &p : cex) m.v.insert_or_assign(p.first, p.second); addViolation(s, "assert", msg, &m); throw PathEnd{"violation"}; }
    if (r < 0) S.undecided.push_back("assert " + msg + " at " + whereOf(s));
    addPC(s, c);
    return;
  }
  std::shared_ptr<Model> om;
  Res r = query(s, mkNot(c), &om);
  if (r == R_SAT) { addViolation(s, "assert", msg, om.get()); throw PathEnd{"violation"}; }
  if (r == R_UNKNOWN) S.undecided.push_back("assert " + msg + " at " + whereOf(s));
  s.known[c] = true;
}

static Term *ctlz(Term *x, bool trail) {
  uint32_t w = x->w; Term *r = mkC(w, w);
  for (uint32_t i = 0; i < w; i++) {
    uint32_t bit = trail ? w - 1 - i : i;  // later iterations take precedence
    r = mkIte(mkExtract(x, bit, 1), mkC(w, trail ? bit : w - 1 - bit), r);
  }
  return r;
}
static Term *fcmp(CmpInst::Predicate p, Term *a, Term *b) {
  auto olt = [](Term *x, Term *y) { return mkFP(FP_OLT, 1, {x, y}); };
  auto ole = [](Term *x, Term *y) { return mkFP(FP_OLE, 1, {x, y}); };
  auto oeq = [](Term *x, Term *y) { return mkFP(FP_OEQ, 1, {x, y}); };
  Term *un = mkFP(FP_UNO, 1, {a, b});
  switch (p) {
  case CmpInst::FCMP_OEQ: return oeq(a, b);
  case CmpInst::FCMP_OGT: return olt(b, a);
  case CmpInst::FCMP_OGE: return ole(b, a);
  case CmpInst::FCMP_OLT: return olt(a, b);
  case CmpInst::FCMP_OLE: return ole(a, b);
  case CmpInst::FCMP_ONE: return mkOr(olt(a, b), olt(b, a));
  case CmpInst::FCMP_ORD: return mkNot(un);
  case CmpInst::FCMP_UNO: return un;
  case CmpInst::FCMP_UEQ: return mkOr(un, oeq(a, b));
  case CmpInst::FCMP_UGT: return mkOr(un, olt(b, a));
  case CmpInst::FCMP_UGE: return mkOr(un, ole(b, a));
  case CmpInst::FCMP_ULT: return mkOr(un, olt(a, b));
  case CmpInst::FCMP_ULE: return mkOr(un, ole(a, b));
  case CmpInst::FCMP_UNE: return mkNot(oeq(a, b));
  default: throw EngineError{"fcmp"};
  }
}
static Term *shiftOp(unsigned opc, Term *a, Term *b) {
  Term *r = opc == Instruction::Shl ? mkShl(a, b) : opc == Instruction::LShr ? mkLShr(a, b) : mkAShr(a, b);
  // amounts >= width are undefined: arbitrary value
  if (b->isConst()) return b->cv().uge(a->w) ? freshUninit(a->w) : r;
  APInt lo, hi; uBounds(b, lo, hi);
  if (hi.ult(a->w)) return r;
  static std::map<std::pair<Term *, Term *>, Term *> undef;
  Term *&u = undef[{a, b}];
  if (!u) u = freshUninit(a->w);
  return mkIte(mkUlt(b, mkC(b->w, a->w)), r, u);
}

static bool execCall(State &s, Frame &f, CallBase *cb);   // true: advance to next instruction
static bool doneTime() { return now() - tStart > O.maxTime; }

static void finishReturn(State &s, Term *rv) {
  Frame fr = std::move(s.st.back()); s.st.pop_back();
  for (auto a : fr.allocas) killObj(s, a);
  if (!fr.allocas.empty()) {
    // drop dead stack objects at the top of the list to keep lookups short
    while (!s.mem.empty() && s.mem.back()->dead && s.mem.back()->kind == O_STACK) s.mem.pop_back();
  }
  if (s.st.empty()) throw PathEnd{"done"};
  Frame &c = s.st.back();
  if (fr.freeAfter) { doFree(s, fr.freeAfter); ++c.it; return; }
  if (!fr.site->getType()->isVoidTy()) {
    if (!rv) rv = mkC(bitsOf(fr.site->getType()), 0);
    setv(c, fr.site, rv);
  }
  if (auto *ii = dyn_cast<InvokeInst>(fr.site)) { gotoBB(s, c, ii->getNormalDest()); return; }
  ++c.it;
}

static void step(State &s) {
  Frame &f = s.st.back();
  Instruction *I = &*f.it;
  S.instrs++; s.steps++; f.fi->instrs++;
  if (s.steps > O.maxSteps) violate(s, "termination", "path longer than the step bound");
  auto V = [&](unsigned i) { return val(s, f, I->getOperand(i)); };
  switch (I->getOpcode()) {
  case Instruction::Ret: {
    auto *r = cast<ReturnInst>(I);
    Term *rv = r->getReturnValue() ? V(0) : nullptr;
    finishReturn(s, rv); return;
  }
  case Instruction::Br: {
    auto *b = cast<BranchInst>(I);
    if (b->isUnconditional()) { gotoBB(s, f, b->getSuccessor(0)); return; }
    bool t = branchOn(s, V(0));
    gotoBB(s, f, b->getSuccessor(t ? 0 : 1)); return;
  }
  case Instruction::Switch: {
    auto *sw = cast<SwitchInst>(I);
    Term *v = V(0);
    if (v->isConst()) { auto *ci = ConstantInt::get(sw->getContext(), v->cv()); gotoBB(s, f, sw->findCaseValue(ci)->getCaseSuccessor()); return; }
    for (auto &c : sw->cases()) if (branchOn(s, mkEq(v, mkConst(c.getCaseValue()->getValue())))) { gotoBB(s, f, c.getCaseSuccessor()); return; }
    gotoBB(s, f, sw->getDefaultDest()); return;
  }
  case Instruction::Unreachable: violate(s, "undefined", "unreachable code reached");
  case Instruction::Alloca: {
    auto *a = cast<AllocaInst>(I);
    uint64_t n = DL->getTypeAllocSize(a->getAllocatedType());
    if (a->isArrayAllocation()) n *= conc64(s, V(0));
    ObjP o = newObj(s, n, O_STACK, f.fi->f->getName().str() + "." + (a->hasName() ? a->getName().str() : "tmp"), a->getAlign().value());
    f.allocas.push_back(o->base);
    setv(f, I, mkC(64, o->base)); break;
  }
  case Instruction::Load: {
    Type *t = I->getType(); uint32_t w = bitsOf(t); uint32_t n = DL->getTypeStoreSize(t);
    Term *v = memLoad(s, V(0), n);
    setv(f, I, v->w == w ? v : mkTrunc(v, w)); break;
  }
  case Instruction::Store: {
    Term *v = V(0); uint32_t n = DL->getTypeStoreSize(I->getOperand(0)->getType()) * 8;
    if (v->w < n) v = mkZExt(v, n);
    memStore(s, V(1), v); break;
  }
  case Instruction::GetElementPtr: {
    auto *g = cast<GetElementPtrInst>(I);
    Term *p = V(0);
    APInt off(64, 0); std::vector<std::pair<Term *, APInt>> k;
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
      Value *ix = it.getOperand();
      if (auto *st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
      uint64_t es = it.getSequentialElementStride(*DL);
      Term *t = val(s, f, ix);
      t = t->w == 64 ? t : t->w < 64 ? mkSExt(t, 64) : mkTrunc(t, 64);
      if (t->isConst()) off += t->cv() * es; else k.push_back({t, APInt(64, es)});
    }
    k.push_back({p, APInt(64, 1)});
    setv(f, I, k.size() == 1 ? mkAdd(p, mkConst(off)) : mkLin(64, off, k)); break;
  }
  case Instruction::Add: setv(f, I, mkAdd(V(0), V(1))); break;
  case Instruction::Sub: setv(f, I, mkSub(V(0), V(1))); break;
  case Instruction::Mul: setv(f, I, mkMul(V(0), V(1))); break;
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    Term *a = V(0), *b = V(1);
    if (branchOn(s, mkEq(b, mkC(b->w, 0)))) violate(s, "arithmetic", "division by zero");
    if (I->getOpcode() == Instruction::SDiv || I->getOpcode() == Instruction::SRem) {
      Term *ov = mkAnd(mkEq(a, mkConst(APInt::getSignedMinValue(a->w))), mkEq(b, mkConst(APInt::getAllOnes(a->w))));
      if (branchOn(s, ov)) violate(s, "arithmetic", "signed division overflow");
    }
    setv(f, I, I->getOpcode() == Instruction::UDiv ? mkUDiv(a, b) : I->getOpcode() == Instruction::SDiv ? mkSDiv(a, b) : I->getOpcode() == Instruction::URem ? mkURem(a, b) : mkSRem(a, b));
    break;
  }
  case Instruction::And: setv(f, I, mkAnd(V(0), V(1))); break;
  case Instruction::Or: setv(f, I, mkOr(V(0), V(1))); break;
  case Instruction::Xor: setv(f, I, mkXor(V(0), V(1))); break;
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: setv(f, I, shiftOp(I->getOpcode(), V(0), V(1))); break;
  case Instruction::ICmp: {
    Term *a = V(0), *b = V(1), *r;
    switch (cast<ICmpInst>(I)->getPredicate()) {
    case CmpInst::ICMP_EQ: r = mkEq(a, b); break;
    case CmpInst::ICMP_NE: r = mkNot(mkEq(a, b)); break;
    case CmpInst::ICMP_ULT: r = mkUlt(a, b); break;
    case CmpInst::ICMP_ULE: r = mkUle(a, b); break;
    case CmpInst::ICMP_UGT: r = mkUlt(b, a); break;
    case CmpInst::ICMP_UGE: r = mkUle(b, a); break;
    case CmpInst::ICMP_SLT: r = mkSlt(a, b); break;
    case CmpInst::ICMP_SLE: r = mkSle(a, b); break;
    case CmpInst::ICMP_SGT: r = mkSlt(b, a); break;
    case CmpInst::ICMP_SGE: r = mkSle(b, a); break;
    default: throw EngineError{"icmp"};
    }
    setv(f, I, r); break;
  }
  case Instruction::FCmp: setv(f, I, fcmp(cast<FCmpInst>(I)->getPredicate(), V(0), V(1))); break;
  case Instruction::FAdd: setv(f, I, mkFP(FP_ADD, bitsOf(I->getType()), {V(0), V(1)})); break;
  case Instruction::FSub: setv(f, I, mkFP(FP_SUB, bitsOf(I->getType()), {V(0), V(1)})); break;
  case Instruction::FMul: setv(f, I, mkFP(FP_MUL, bitsOf(I->getType()), {V(0), V(1)})); break;
  case Instruction::FDiv: setv(f, I, mkFP(FP_DIV, bitsOf(I->getType()), {V(0), V(1)})); break;
  case Instruction::FNeg: setv(f, I, mkFP(FP_NEG, bitsOf(I->getType()), {V(0)})); break;
  case Instruction::UIToFP: setv(f, I, mkFP(FP_UITOFP, bitsOf(I->getType()), {V(0)})); break;
  case Instruction::SIToFP: setv(f, I, mkFP(FP_SITOFP, bitsOf(I->getType()), {V(0)})); break;
  case Instruction::FPToUI: setv(f, I, mkFP(FP_FPTOUI, bitsOf(I->getType()), {V(0)})); break;
  case Instruction::FPToSI: setv(f, I, mkFP(FP_FPTOSI, bitsOf(I->getType()), {V(0)})); break;
  case Instruction::FPExt: setv(f, I, mkFP(FP_EXT, 64, {V(0)})); break;
  case Instruction::FPTrunc: setv(f, I, mkFP(FP_TRUNC, 32, {V(0)})); break;
  case Instruction::Select: {
    Term *c = V(0); setv(f, I, mkIte(c, V(1), V(2))); break;
  }
  case Instruction::ZExt: setv(f, I, mkZExt(V(0), bitsOf(I->getType()))); break;
  case Instruction::SExt: setv(f, I, mkSExt(V(0), bitsOf(I->getType()))); break;
  case Instruction::Trunc: setv(f, I, mkTrunc(V(0), bitsOf(I->getType()))); break;
  case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
    Term *t = V(0); uint32_t w = bitsOf(I->getType());
    setv(f, I, t->w == w ? t : t->w > w ? mkTrunc(t, w) : mkZExt(t, w)); break;
  }
  case Instruction::Freeze: setv(f, I, V(0)); break;
  case Instruction::ExtractValue: {
    auto *ev = cast<ExtractValueInst>(I); Type *t = ev->getAggregateOperand()->getType(); uint32_t off = 0;
    for (unsigned ix : ev->indices()) {
      if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < ix; j++) off += bitsOf(st->getElementType(j)); t = st->getElementType(ix); }
      else { auto *at = cast<ArrayType>(t); off += ix * bitsOf(at->getElementType()); t = at->getElementType(); }
    }
    setv(f, I, mkExtract(V(0), off, bitsOf(t))); break;
  }
  case Instruction::InsertValue: {
    auto *ev = cast<InsertValueInst>(I); Type *t = ev->getAggregateOperand()->getType(); uint32_t off = 0;
    for (unsigned ix : ev->indices()) {
      if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < ix; j++) off += bitsOf(st->getElementType(j)); t = st->getElementType(ix); }
      else { auto *at = cast<ArrayType>(t); off += ix * bitsOf(at->getElementType()); t = at->getElementType(); }
    }
    Term *ag = V(0), *v = V(1); TV k;
    if (off) k.push_back(mkExtract(ag, 0, off));
    k.push_back(v);
    if (off + v->w < ag->w) k.push_back(mkExtract(ag, off + v->w, ag->w - off - v->w));
    setv(f, I, mkConcat(k)); break;
  }
  case Instruction::Call: if (execCall(s, f, cast<CallBase>(I))) break; else return;
  default: throw EngineError{std::string("unsupported instruction ") + I->getOpcodeName()};
  }
  ++f.it;
}

static bool execCall(State &s, Frame &f, CallBase *cb) {
  auto A = [&](unsigned i) { return val(s, f, cb->getArgOperand(i)); };
  auto ret = [&](Term *t) { if (!cb->getType()->isVoidTy()) setv(f, cb, t->w == bitsOf(cb->getType()) ? t : mkTrunc(mkZExt(t, std::max(t->w, bitsOf(cb->getType()))), bitsOf(cb->getType()))); return true; };
  if (isa<InlineAsm>(cb->getCalledOperand())) {
    std::vector<Term *> ops; for (unsigned i = 0; i < cb->arg_size(); i++) ops.push_back(A(i));
    Term *r = execAsm(s, *cb, ops);
    if (r) setv(f, cb, r);
    return true;
  }
  Function *fn = cb->getCalledFunction();
  if (!fn) {
    uint64_t a = conc64(s, val(s, f, cb->getCalledOperand()));
    auto it = fnByAddr.find(a);
    if (it == fnByAddr.end()) violate(s, "memory", "call through an invalid function pointer");
    fn = it->second;
  }
  if (fn->isIntrinsic()) {
    switch (fn->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(s, A(0), A(1), A(2)); return true;
    case Intrinsic::memset: setMem(s, A(0), A(1), A(2)); return true;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
    case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::prefetch: return true;
    case Intrinsic::stacksave: return ret(mkC(64, 0));
    case Intrinsic::expect: return ret(A(0));
    case Intrinsic::is_constant: return ret(mkC(1, 0));
    case Intrinsic::objectsize: return ret(mkConst(APInt::getAllOnes(bitsOf(cb->getType()))));
    case Intrinsic::trap: case Intrinsic::ubsantrap: violate(s, "abort", "trap");
    case Intrinsic::bswap: { Term *x = A(0); TV k; for (int i = (int)x->w / 8 - 1; i >= 0; i--) k.push_back(mkExtract(x, i * 8, 8)); return ret(mkConcat(k)); }
    case Intrinsic::bitreverse: { Term *x = A(0); TV k; for (int i = (int)x->w - 1; i >= 0; i--) k.push_back(mkExtract(x, i, 1)); return ret(mkConcat(k)); }
    case Intrinsic::ctlz: return ret(ctlz(A(0), false));
    case Intrinsic::cttz: return ret(ctlz(A(0), true));
    case Intrinsic::ctpop: { Term *x = A(0); std::vector<std::pair<Term *, APInt>> k; for (uint32_t i = 0; i < x->w; i++) k.push_back({mkZExt(mkExtract(x, i, 1), x->w), APInt(x->w, 1)}); return ret(mkLin(x->w, APInt(x->w, 0), k)); }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      Term *a = A(0), *b = A(1), *c = A(2); bool l = fn->getIntrinsicID() == Intrinsic::fshl; uint32_t w = a->w;
      if (c->isConst()) { uint32_t k = c->cv().urem(w); if (!k) return ret(l ? a : b); uint32_t sh = l ? w - k : k; return ret(mkExtract(mkConcat({b, a}), sh, w)); }
      Term *cat = mkConcat({b, a}), *m = mkZExt(mkURem(c, mkC(w, w)), 2 * w);
      return ret(l ? mkExtract(mkShl(cat, m), w, w) : mkExtract(mkLShr(cat, m), 0, w));
    }
    case Intrinsic::umin: return ret(mkIte(mkUlt(A(0), A(1)), A(0), A(1)));
    case Intrinsic::umax: return ret(mkIte(mkUlt(A(0), A(1)), A(1), A(0)));
    case Intrinsic::smin: return ret(mkIte(mkSlt(A(0), A(1)), A(0), A(1)));
    case Intrinsic::smax: return ret(mkIte(mkSlt(A(0), A(1)), A(1), A(0)));
    case Intrinsic::abs: return ret(mkIte(mkSlt(A(0), mkC(A(0)->w, 0)), mkNeg(A(0)), A(0)));
    case Intrinsic::fabs: { Term *x = A(0); return ret(mkConcat({mkExtract(x, 0, x->w - 1), mkC(1, 0)})); }
    case Intrinsic::floor: return ret(mkFP(FP_FLOOR, A(0)->w, {A(0)}));
    case Intrinsic::ceil: return ret(mkFP(FP_CEIL, A(0)->w, {A(0)}));
    case Intrinsic::fmuladd: return ret(mkFP(FP_ADD, A(0)->w, {mkFP(FP_MUL, A(0)->w, {A(0), A(1)}), A(2)}));
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      Term *a = A(0), *b = A(1); uint32_t w = a->w; auto id = fn->getIntrinsicID();
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow, sub = id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow;
      Term *r, *ov;
      if (!sg && !mul) { r = sub ? mkSub(a, b) : mkAdd(a, b); ov = sub ? mkUlt(a, b) : mkUlt(r, a); }
      else {
        uint32_t W = mul ? 2 * w : w + 1;
        Term *x = sg ? mkSExt(a, W) : mkZExt(a, W), *y = sg ? mkSExt(b, W) : mkZExt(b, W);
        Term *z = mul ? mkMul(x, y) : sub ? mkSub(x, y) : mkAdd(x, y);
        r = mkTrunc(z, w); ov = mkNot(mkEq(z, sg ? mkSExt(r, W) : mkZExt(r, W)));
      }
      return ret(mkConcat({r, ov}));
    }
    case Intrinsic::uadd_sat: { Term *r = mkAdd(A(0), A(1)); return ret(mkIte(mkUlt(r, A(0)), mkConst(APInt::getAllOnes(r->w)), r)); }
    case Intrinsic::usub_sat: return ret(mkIte(mkUlt(A(0), A(1)), mkC(A(0)->w, 0), mkSub(A(0), A(1))));
    default: throw EngineError{"unsupported intrinsic " + fn->getName().str()};
    }
  }
  std::string n = fn->getName().str();
  if (n.compare(0, 4, "rsx_") == 0 && fn->isDeclaration()) {
    if (n == "rsx_sym") {
      uint64_t sz = conc64(s, A(1)); std::string nm = cstr(s, A(2)) + "." + std::to_string(s.inputs.size());
      InRec r; r.name = nm;
      if (sz == 8 || sz == 4 || sz == 2 || sz == 1) { Term *v = symInput(s, sz * 8, nm); memStore(s, A(0), v); r.t.push_back(v); r.w = sz * 8; }
      else { r.w = 8; for (uint64_t i = 0; i < sz; i++) { Term *v = symInput(s, 8, nm + "[" + std::to_string(i) + "]"); memStore(s, mkAdd(A(0), mkC(64, i)), v); r.t.push_back(v); } }
      s.inputs.push_back(r);
      return true;
    }
    if (n == "rsx_pick") {   // concretised immediately
      uint64_t lo = conc64(s, A(0)), hi = conc64(s, A(1));
      std::string nm = cstr(s, A(2)) + "." + std::to_string(s.inputs.size());
      Term *v = symInput(s, 64, nm);
      Term *rng = mkAnd(mkUle(mkC(64, lo), v), mkUle(v, mkC(64, hi)));
      auto it = s.known.find(rng);
      if (it == s.known.end()) {
        s.known[rng] = true;
        addPC(s, rng);
        // fresh variable: any value in range is consistent
        auto m = std::make_shared<Model>(); m->v = s.model->v; m->v.insert_or_assign(v->a, APInt(64, lo)); s.model = m;
        if (lo > hi) throw PathEnd{"pruned"};
      }
      // enumerate directly (each value is a feasible fork)
      for (uint64_t x = lo;; x++) {
        Term *e = mkEq(v, mkC(64, x));
        auto k = s.known.find(e);
        if (k != s.known.end() && !k->second) continue;
        if (x < hi && k == s.known.end()) {
          auto ns = std::make_unique<State>(s);
          ns->known[e] = false; auto m = std::make_shared<Model>(); m->v = s.model->v; m->v.insert_or_assign(v->a, APInt(64, x + 1)); ns->model = m;
          work.push_back(std::move(ns)); S.forks++;
        }
        { auto m = std::make_shared<Model>(); m->v = s.model->v; m->v.insert_or_assign(v->a, APInt(64, x)); s.model = m; }
        s.known[e] = true;
        s.inputs.push_back({nm, 64, {mkC(64, x)}});
        return ret(mkC(64, x));
      }
    }
    if (n == "rsx_assume") {
      Term *c = A(0); c = mkNot(mkEq(c, mkC(c->w, 0)));
      if (c->isConst()) { if (c->isZero()) throw PathEnd{"pruned"}; return true; }
      auto it = s.known.find(c);
      if (it != s.known.end()) { if (!it->second) throw PathEnd{"pruned"}; return true; }
      if (!s.model->eval(c).isOne()) {
        std::shared_ptr<Model> om; Res r = query(s, c, &om);
        if (r == R_UNSAT) throw PathEnd{"pruned"};
        if (r == R_UNKNOWN) { S.undecided.push_back("assume at " + whereOf(s)); throw PathEnd{"pruned"}; }
        s.model = om;
      }
      addPC(s, c); return true;
    }
    if (n == "rsx_assert") { Term *c = A(0); checkAssert(s, mkNot(mkEq(c, mkC(c->w, 0))), cstr(s, A(1))); return true; }
    if (n == "rsx_eq") {
      uint64_t sz = conc64(s, A(2)); if (!sz) return true;
      TV a = loadBytes(s, A(0), sz), b = loadBytes(s, A(1), sz);
      checkEq(s, a, b, cstr(s, A(3))); return true;
    }
    if (n == "rsx_live") return ret(mkC(32, s.live));
    if (n == "rsx_observe") { uint64_t sz = conc64(s, A(1)); s.obs.push_back({cstr(s, A(2)), loadBytes(s, A(0), sz)}); return true; }
    if (n == "rsx_malloc_may_fail") { s.mallocFail = (int)conc64(s, A(0)); return true; }
    if (n == "rsx_concrete") return ret(mkConst(concretise(s, A(0))));
    if (n == "rsx_is_symbolic") return ret(mkC(32, !A(0)->isConst()));
    if (n == "rsx_mark") { S.marks[cstr(s, A(0))]++; return true; }
    if (n == "rsx_engine") return ret(mkC(32, 1));
    if (n == "rsx_valid") {   // is [p, p+n) readable
      if (!A(0)->isConst()) throw EngineError{"rsx_valid on symbolic pointer"};
      uint64_t a = A(0)->cv().getZExtValue(), sz = conc64(s, A(1)); int oi = findObj(s, a);
      bool ok = oi >= 0 && !s.mem[oi]->dead && a - s.mem[oi]->base <= s.mem[oi]->size && sz <= s.mem[oi]->size - (a - s.mem[oi]->base);
      return ret(mkC(32, ok));
    }
    if (n == "rsx_prune") throw PathEnd{"pruned"};
    if (n == "rsx_print") { fprintf(stderr, "[print] %s = %s\n", cstr(s, A(0)).c_str(), termStr(A(1), 6).c_str()); return true; }
    throw EngineError{"unknown " + n};
  }
  auto ov = overrides.find(n);
  if (ov != overrides.end() && f.fi->f != ov->second) fn = ov->second;
  if (n.compare(0, 7, "__real_") == 0) { Function *r = M->getFunction(n.substr(7)); if (!r || r->isDeclaration()) throw EngineError{"no real " + n}; fn = r; }
  if (fn->isDeclaration()) {
    if (n == "malloc") return ret(doMalloc(s, A(0), "malloc@" + f.fi->f->getName().str(), false));
    if (n == "calloc") { Term *sz = mkMul(A(0), A(1)); return ret(doMalloc(s, sz, "calloc@" + f.fi->f->getName().str(), true)); }
    if (n == "realloc") {
      uint64_t p = conc64(s, A(0)), sz = conc64(s, A(1));
      Term *np = doMalloc(s, mkC(64, sz), "realloc@" + f.fi->f->getName().str(), false);
      if (p && !np->isZero()) { int oi = findObj(s, p); if (oi < 0 || s.mem[oi]->base != p || s.mem[oi]->dead) violate(s, "memory", "realloc of an invalid pointer"); copyMem(s, np, mkC(64, p), mkC(64, std::min(sz, s.mem[oi]->size))); doFree(s, p); }
      return ret(np);
    }
    if (n == "free") {
      uint64_t a = conc64(s, A(0));
      Function *h = M->getFunction("rsx_free_hook");
      if (a && h && !h->isDeclaration()) {
        int oi = findObj(s, a);
        if (oi >= 0 && s.mem[oi]->base == a && !s.mem[oi]->dead && s.mem[oi]->kind == O_HEAP) {
          pushCall(s, h, {mkC(64, a), mkC(64, s.mem[oi]->size)}, cb);
          s.st.back().freeAfter = a;
          return false;
        }
      }
      doFree(s, a); return true;
    }
    if (n == "memcpy" || n == "memmove" || n == "__memcpy_chk" || n == "__memmove_chk") { copyMem(s, A(0), A(1), A(2)); return ret(A(0)); }
    if (n == "memset" || n == "__memset_chk") { setMem(s, A(0), mkTrunc(A(1), 8), A(2)); return ret(A(0)); }
    if (n == "explicit_bzero" || n == "bzero") { setMem(s, A(0), mkC(8, 0), A(1)); return true; }
    if (n == "memcmp" || n == "bcmp") {
      uint64_t sz = conc64(s, A(2));
      TV a = loadBytes(s, A(0), sz), b = loadBytes(s, A(1), sz); Term *r = mkC(32, 0);
      for (int i = (int)sz - 1; i >= 0; i--) r = mkIte(mkEq(a[i], b[i]), r, mkSub(mkZExt(a[i], 32), mkZExt(b[i], 32)));
      return ret(r);
    }
    if (n == "strlen") { uint64_t i = 0; for (;; i++) { Term *c = memLoad(s, mkAdd(A(0), mkC(64, i)), 1); if (branchOn(s, mkEq(c, mkC(8, 0)))) break; } return ret(mkC(64, i)); }
    if (n == "abort" || n == "__assert_fail" || n == "__assert") {
      std::string m = n == "abort" ? "abort()" : "assert(" + cstr(s, A(0)) + ")";
      violate(s, "abort", m);
    }
    if (n == "exit" || n == "_exit") violate(s, "abort", "exit()");
    if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fflush" || n == "fputs") return ret(mkC(32, 0));
    throw EngineError{"call of external function " + n};
  }
  TV args; for (unsigned i = 0; i < cb->arg_size(); i++) args.push_back(A(i));
  pushCall(s, fn, args, cb);
  return false;
}

static std::string jsonStr(const std::string &x) { std::string r = "\""; for (char c : x) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static void sample(State &s) {
  // keep the first samples and then thin out
  static uint64_t seen = 0; seen++;
  if (g_samples.size() >= O.samples) { uint64_t r = (seen * 0x9e3779b97f4a7c15ULL) >> 33; if (r % seen >= O.samples) return; }
  std::string j = "{\"inputs\":["; bool first = true;
  for (auto &p : dumpInputs(s, *s.model)) { if (!first) j += ","; first = false; j += "[" + jsonStr(p.first) + "," + jsonStr(p.second) + "]"; }
  j += "],\"obs\":["; first = true;
  for (auto &o : s.obs) { std::string h; for (auto t : o.bytes) h += hexOf(s.model->eval(t)); if (!first) j += ","; first = false; j += "[" + jsonStr(o.name) + "," + jsonStr(h) + "]"; }
  j += "]}";
  if (g_samples.size() < O.samples) g_samples.push_back(j);
  else g_samples[(seen * 2654435761u) % O.samples] = j;
}

std::string g_engineError;
bool g_timeout = false;
void runModule(Module &mod) {
  M = &mod; DL = &mod.getDataLayout(); tStart = now(); g_deadline = tStart + O.maxTime;
  auto st = std::make_unique<State>();
  st->model = std::make_shared<Model>();
  uint64_t fa = 0x100000;
  for (auto &f : mod) { fnAddr[&f] = fa; fnByAddr[fa] = &f; fa += 64; std::string n = f.getName().str(); if (n.compare(0, 13, "rsx_override_") == 0 && !f.isDeclaration()) overrides[n.substr(13)] = &f; }
  for (auto &g : mod.globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    uint64_t sz = DL->getTypeAllocSize(g.getValueType());
    ObjP o = newObj(*st, sz, O_GLOBAL, g.getName().str(), g.getAlign() ? g.getAlign()->value() : 16);
    globAddr[&g] = o->base;
  }
  try {
    for (auto &g : mod.globals()) {
      if (g.getName().starts_with("llvm.")) continue;
      int oi = findObj(*st, globAddr[&g]); Obj &o = *st->mem[oi];
      if (g.hasInitializer()) initCells(*st, o, 0, g.getInitializer());
      if (g.isConstant()) o.ro = true;
    }
    Function *h = mod.getFunction(O.entry);
    if (!h || h->isDeclaration()) throw EngineError{"no entry " + O.entry};
    pushCall(*st, h, {}, nullptr);
  } catch (EngineError &e) { g_engineError = e.msg; return; }
  work.push_back(std::move(st));
  uint64_t tick = 0;
  while (!work.empty()) {
    auto s = std::move(work.back()); work.pop_back();
    try {
      for (;;) {
        if ((++tick & 1023) == 0 && doneTime()) { g_timeout = true; return; }
        step(*s);
      }
    } catch (PathEnd &e) {
      if (e.why == "done") { S.paths++; try { sample(*s); } catch (EngineError &) {} }
      else if (e.why == "pruned") S.pruned++;
      else { S.paths++; if (g_viol.size() >= O.maxViol) return; }
    } catch (EngineError &e) {
      g_engineError = e.msg + " [" + whereOf(*s) + "]";
      return;
    }
    if (doneTime()) { g_timeout = !work.empty(); return; }
  }
}
std::vector<std::string> enteredFunctions() { std::vector<std::string> r; for (auto &p : fnInfos) if (p.second->entered) r.push_back(p.first->getName().str()); std::sort(r.begin(), r.end()); return r; }
