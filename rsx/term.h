// Hash-consed bit-vector terms with local simplification.
#pragma once
#include <llvm/ADT/APInt.h>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

using llvm::APInt;

enum Op : uint8_t {
  T_CONST, T_VAR, T_LIN, T_MUL, T_UDIV, T_UREM, T_AND, T_OR, T_XOR,
  T_SHL, T_LSHR, T_ASHR, T_CONCAT, T_EXTRACT, T_SEXT, T_ITE, T_EQ, T_ULT, T_SLT,
  T_SELECT, T_ARR, T_FP
};
extern const char *opname[];

struct Term {
  Op op;
  uint32_t w;        // width in bits (entry width for T_ARR)
  uint32_t id;
  uint32_t a;        // EXTRACT: low bit; VAR: variable number; FP: fp opcode
  std::vector<Term *> k;
  std::vector<APInt> c;  // CONST: c[0]; LIN: c[0]=constant, c[i+1]=coef of k[i]
  int vset = -1;     // interned variable-support set, lazily
  const APInt &cv() const { return c[0]; }
  bool isConst() const { return op == T_CONST; }
  bool isC(uint64_t v) const { return op == T_CONST && c[0] == v; }
  bool isZero() const { return op == T_CONST && c[0].isZero(); }
  bool isOnes() const { return op == T_CONST && c[0].isAllOnes(); }
};
typedef std::vector<Term *> TV;

struct VarInfo { std::string name; uint32_t w; Term *t; };
extern std::vector<VarInfo> g_vars;
extern uint64_t g_nterms;
extern uint64_t g_rewrites;

Term *mkConst(const APInt &v);
Term *mkC(uint32_t w, uint64_t v);
Term *mkVar(uint32_t w, const std::string &name);
Term *mkLin(uint32_t w, APInt c, std::vector<std::pair<Term *, APInt>> kids);
Term *mkAdd(Term *a, Term *b);
Term *mkSub(Term *a, Term *b);
Term *mkNeg(Term *a);
Term *mkMul(Term *a, Term *b);
Term *mkUDiv(Term *a, Term *b);
Term *mkURem(Term *a, Term *b);
Term *mkSDiv(Term *a, Term *b);
Term *mkSRem(Term *a, Term *b);
Term *mkAnd(Term *a, Term *b);
Term *mkOr(Term *a, Term *b);
Term *mkXor(Term *a, Term *b);
Term *mkBitN(Op op, TV k);
Term *mkNot(Term *a);
Term *mkShl(Term *a, Term *b);
Term *mkLShr(Term *a, Term *b);
Term *mkAShr(Term *a, Term *b);
Term *mkConcat(TV k);              // least significant first
Term *mkExtract(Term *a, uint32_t lo, uint32_t w);
Term *mkZExt(Term *a, uint32_t w);
Term *mkSExt(Term *a, uint32_t w);
Term *mkTrunc(Term *a, uint32_t w);
Term *mkIte(Term *c, Term *a, Term *b);
Term *mkEq(Term *a, Term *b);
Term *mkUlt(Term *a, Term *b);
Term *mkUle(Term *a, Term *b);
Term *mkSlt(Term *a, Term *b);
Term *mkSle(Term *a, Term *b);
Term *mkArr(const TV &entries);
Term *mkSelect(Term *arr, Term *idx);  // idx value < entries (caller ensures)
Term *mkFP(uint32_t fop, uint32_t w, const TV &k);
// unsigned bounds (sound over-approximation)
void uBounds(Term *t, APInt &lo, APInt &hi);
// view of an address-like term: constant + sum coef*kid, with shifts undone
void linView(Term *t, APInt &c, std::vector<std::pair<Term *, APInt>> &out);

// fp opcodes
enum { FP_ADD, FP_SUB, FP_MUL, FP_DIV, FP_UITOFP, FP_SITOFP, FP_FPTOUI, FP_FPTOSI, FP_OLT, FP_OLE, FP_OEQ, FP_UNO, FP_EXT, FP_TRUNC, FP_NEG, FP_FLOOR, FP_CEIL };
APInt evalFP(uint32_t fop, uint32_t w, const std::vector<APInt> &k);

struct Model {
  std::unordered_map<uint32_t, APInt> v;  // var number -> value (missing: 0)
  std::unordered_map<Term *, APInt> cache;
  const APInt &eval(Term *t);
};
const std::vector<uint32_t> &varSet(Term *t);   // sorted variable numbers
int varSetId(Term *t);
std::string termStr(Term *t, int depth = 4);
