// rsx: symbolic execution of one bitcode module.
#include "exec.h"
#include <cstdio>
#include <thread>
#include <unistd.h>
#include <cstring>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/resource.h>
extern std::vector<std::string> g_samples; extern std::string g_engineError; extern bool g_timeout;
std::vector<std::string> enteredFunctions();
static std::string js(const std::string &x) { std::string r = "\""; for (char c : x) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
int main(int argc, char **argv) {
  std::string in, out = "-";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") O.entry = nx(); else if (a == "--out") out = nx(); else if (a == "--no-cpu") O.cpu = false;
    else if (a == "--time") O.maxTime = std::stod(nx()); else if (a == "--steps") O.maxSteps = std::stoull(nx()); else if (a == "--samples") O.samples = std::stoul(nx());
    else if (a == "--query-timeout") g_queryTimeout = std::stoul(nx()); else if (a == "--eq-timeout") O.eqTimeout = std::stoul(nx()); else if (a == "--seed") O.seed = std::stoull(nx());
    else if (a == "--max-viol") O.maxViol = std::stoul(nx()); else if (a == "-v") O.verbose = true; else in = a;
  }
  llvm::LLVMContext ctx; llvm::SMDiagnostic err;
  auto M = llvm::parseIRFile(in, err, ctx);
  if (!M) { err.print("rsx", llvm::errs()); return 3; }
  double t0 = now();
  // z3 does not always honour its timeout
  std::thread([&]() {
    while (now() < t0 + O.maxTime + 25) sleep(1);
    FILE *f = out == "-" ? stdout : fopen(out.c_str(), "w"); if (f) { fputs("{\"error\":\"\",\"timeout\":1,\"stuck\":1,\"undecided\":[\"a solver call did not return in time\"],\"violations\":[],\"samples\":[],\"functions\":[],\"marks\":{},\"paths\":0,\"forks\":0,\"instrs\":0,\"branches\":0,\"pruned\":0,\"asserts\":0,\"eq_bytes\":0,\"eq_struct\":0,\"eq_canon\":0,\"eq_sweep\":0,\"eq_solver\":0,\"mem_checks\":0,\"queries\":0,\"unsat\":0,\"sat\":0,\"unknown\":0,\"table_lemmas\":0,\"sweep_merges\":0,\"sweep_reused\":0,\"solver_time\":0}\n", f); fflush(f); }
    _exit(0);
  }).detach();
  runModule(*M);
  double wall = now() - t0;
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  std::string j = "{";
  auto num = [&](const char *k, double v) { char b[64]; snprintf(b, 64, "\"%s\":%.6g,", k, v); j += b; };
  auto inum = [&](const char *k, uint64_t v) { char b[64]; snprintf(b, 64, "\"%s\":%llu,", k, (unsigned long long)v); j += b; };
  j += "\"error\":" + js(g_engineError) + ",";
  inum("timeout", g_timeout); inum("paths", S.paths); inum("pruned", S.pruned); inum("forks", S.forks); inum("branches", S.branches); inum("instrs", S.instrs);
  inum("asserts", S.asserts); inum("asserts_by_rewriting", S.assertsTrivial); inum("eqs", S.eqs); inum("eq_bytes", S.eqBytes); inum("eq_struct", S.eqStruct); inum("eq_canon", S.eqCanon); inum("table_lemmas", S.tableLemmas); inum("eq_sweep", S.eqSweep); inum("eq_solver", S.eqSolver); inum("sweep_merges", S.sweepMerges); inum("sweep_reused", S.shapeHits);
  inum("mem_checks", S.memChecks); inum("bounds_queries", S.boundsChecks);
  inum("queries", g_ss.queries); inum("sat", g_ss.sat); inum("unsat", g_ss.unsat); inum("unknown", g_ss.unknown); inum("cached", g_ss.cached); inum("arith_unsat", g_ss.arithUnsat); inum("arith_sat", g_ss.arithSat); inum("arith_fix", g_ss.arithFix); inum("arith_try", g_ss.arithTry); num("solver_time", g_ss.time); num("solver_max", g_ss.maxTime);
  inum("terms", g_nterms); inum("vars", g_vars.size()); num("wall", wall); inum("maxrss_kb", ru.ru_maxrss);
  j += "\"undecided\":["; for (size_t i = 0; i < S.undecided.size(); i++) { if (i) j += ","; if (i > 50) { j += "\"...\""; break; } j += js(S.undecided[i]); } j += "],";
  j += "\"marks\":{"; { bool f = true; for (auto &p : S.marks) { if (!f) j += ","; f = false; j += js(p.first) + ":" + std::to_string(p.second); } } j += "},";
  j += "\"functions\":["; { bool f = true; for (auto &p : enteredFunctions()) { if (!f) j += ","; f = false; j += js(p); } } j += "],";
  j += "\"violations\":["; { bool f = true; for (auto &v : g_viol) { if (!f) j += ","; f = false; j += "{\"kind\":" + js(v.kind) + ",\"msg\":" + js(v.msg) + ",\"where\":" + js(v.where) + ",\"inputs\":["; bool g = true; for (auto &p : v.inputs) { if (!g) j += ","; g = false; j += "[" + js(p.first) + "," + js(p.second) + "]"; } j += "]}"; } } j += "],";
  j += "\"samples\":["; for (size_t i = 0; i < g_samples.size(); i++) { if (i) j += ","; j += g_samples[i]; } j += "]}\n";
  if (out == "-") fputs(j.c_str(), stdout); else { FILE *f = fopen(out.c_str(), "w"); if (!f) return 3; fputs(j.c_str(), f); fclose(f); }
  fflush(stdout); _exit(0);
}
