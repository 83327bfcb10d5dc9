// Symbolic executor over LLVM IR.
#pragma once
#include "solver.h"
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <map>
#include <set>
#include <unordered_set>

struct Cell { Term *t = nullptr; uint32_t i = 0; };
enum ObjKind { O_GLOBAL, O_STACK, O_HEAP };
struct Obj {
  uint64_t base, size; ObjKind kind; bool ro = false, dead = false;
  std::string name;
  std::vector<Cell> cells;
  std::map<std::tuple<uint64_t, uint32_t, uint64_t, uint32_t>, Term *> snaps;  // cached SELECT arrays
};
typedef std::shared_ptr<Obj> ObjP;

struct FnInfo {
  llvm::Function *f; std::unordered_map<const llvm::Value *, uint32_t> num; uint32_t n = 0; bool entered = false; uint64_t instrs = 0;
};
struct Frame {
  FnInfo *fi; llvm::BasicBlock *bb = nullptr, *prev = nullptr; llvm::BasicBlock::iterator it;
  std::vector<Term *> regs; std::vector<uint64_t> allocas;
  llvm::CallBase *site = nullptr;   // call instruction in the caller to complete on return
  uint64_t freeAfter = 0;           // free() waiting for the free hook
};
struct InRec { std::string name; uint32_t w; std::vector<Term *> t; };   // one rsx_sym call
struct ObsRec { std::string name; TV bytes; };
struct State {
  std::vector<Frame> st;
  std::vector<ObjP> mem;             // sorted by base
  uint64_t nextAddr = 0x10000000;
  TV pc; std::unordered_map<Term *, bool> known;
  std::shared_ptr<Model> model;
  std::vector<InRec> inputs; std::vector<ObsRec> obs;
  int live = 0; int mallocFail = 0; int mallocNo = 0; uint64_t steps = 0;
  uint32_t depth = 0;
};
struct EngineError { std::string msg; };
struct PathEnd { std::string why; };

struct Violation { std::string kind, msg, where; std::vector<std::pair<std::string, std::string>> inputs; };
struct Options {
  std::string entry = "harness"; bool cpu = true; double maxTime = 600; uint64_t maxSteps = 400000000; uint32_t samples = 20; uint32_t maxViol = 4;
  uint64_t maxPaths = 10000000; uint64_t seed = 1; unsigned eqTimeout = 20000; uint64_t shard = 0, nshards = 1; bool verbose = false;
};
extern Options O;
struct Stats {
  uint64_t eqCanon = 0, tableLemmas = 0, paths = 0, pruned = 0, forks = 0, instrs = 0, asserts = 0, assertsTrivial = 0, eqs = 0, eqStruct = 0, eqSweep = 0, eqSolver = 0, eqBytes = 0, branches = 0, boundsChecks = 0, sweepMerges = 0, shapeHits = 0, memChecks = 0;
  std::map<std::string, uint64_t> marks;
  std::vector<std::string> undecided;
};
extern Stats S;

// exec.cpp
extern std::vector<Violation> g_viol;
void runModule(llvm::Module &M);
// asm.cpp
struct Exec;
Term *execAsm(State &s, const llvm::CallBase &cb, const std::vector<Term *> &ops);
// services for asm.cpp
Term *memLoad(State &s, Term *addr, uint32_t bytes);
void memStore(State &s, Term *addr, Term *val);
bool branchOn(State &s, Term *cond);
APInt concretise(State &s, Term *t);
// sweep.cpp: decide a == b under pc; 1 equal, 0 different (model filled in), -1 unknown
int decideEq(Term *a, Term *b, State &s, std::unordered_map<uint32_t, APInt> &cex);
TV slicePC(State &s, const std::vector<Term *> &conds);
