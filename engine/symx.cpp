// symx: a bounded symbolic executor for LLVM 18 IR with Z3 as the deciding solver.
// Memory is byte addressed with object bounds; integers are bit-vectors; doubles are either
// exact reals (KSymR), IEEE floats (KSymF) or concrete.  See DESIGN.md for semantics and limits.
#include <llvm/ADT/DenseMap.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/SmallString.h>
#include <unistd.h>
#include <z3++.h>
#include <gmpxx.h>
#include <unordered_set>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_map>
#include <vector>
using namespace llvm;
typedef uint64_t u64;
typedef int64_t i64;

static z3::context *C;
static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Ex {
  Z3_ast a = nullptr;
  Ex() {}
  Ex(const z3::expr &e) : a(e) { Z3_inc_ref(*C, a); }
  Ex(const Ex &o) : a(o.a) { if (a) Z3_inc_ref(*C, a); }
  Ex(Ex &&o) noexcept : a(o.a) { o.a = nullptr; }
  Ex &operator=(const Ex &o) {
    if (o.a) Z3_inc_ref(*C, o.a);
    if (a) Z3_dec_ref(*C, a);
    a = o.a;
    return *this;
  }
  Ex &operator=(Ex &&o) noexcept { std::swap(a, o.a); return *this; }
  ~Ex() { if (a) Z3_dec_ref(*C, a); }
  z3::expr e() const { return z3::expr(*C, a); }
  explicit operator bool() const { return a != nullptr; }
};

enum Kind : uint8_t { KUndef, KInt, KFp, KSymI, KSymB, KSymR, KSymF, KAgg };
struct Val {
  Kind k = KUndef;
  uint8_t w = 0;      // bit width for ints (64 for pointers); 64/32 for fp
  uint32_t prov = 0;  // object id a symbolic address was derived from
  union { u64 i; double d; };
  Ex x;
  std::shared_ptr<std::vector<Val>> agg;
  Val() : i(0) {}
};
static inline u64 maskw(u64 v, unsigned w) { return w >= 64 ? v : (v & ((1ull << w) - 1)); }
static inline i64 sextw(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
static Val VI(u64 v, unsigned w) { Val r; r.k = KInt; r.w = w; r.i = maskw(v, w); return r; }
static Val VP(u64 v) { return VI(v, 64); }
static Val VD(double d, unsigned w = 64) { Val r; r.k = KFp; r.w = w; r.d = w == 32 ? (double)(float)d : d; return r; }
static Val VAgg(std::vector<Val> v) { Val r; r.k = KAgg; r.agg = std::make_shared<std::vector<Val>>(std::move(v)); return r; }

// ------------------------------------------------------------------ errors
struct PathEnd { };                                   // path finished quietly (assume false, exit)
struct Violation { std::string kind, msg; };          // property violated on this path
struct Unsupported { std::string msg; };              // engine cannot continue: inconclusive
struct Refork { };                                    // state must re-execute (solver said unsat)

// ------------------------------------------------------------------ memory
enum ObjKind : uint8_t { OGlobal, OStack, OHeap, OExtern };
struct Cell { uint32_t size; Val v; };
struct Obj {
  uint32_t id; u64 size; ObjKind kind; bool ro = false, freed = false;
  std::vector<uint8_t> bytes, init;
  std::map<uint32_t, Cell> ov;
  std::string name;
};
typedef std::shared_ptr<Obj> ObjP;
static const int ASH = 28;
static const int CH = 128;
struct Chunk { ObjP o[CH]; };
struct Memory {
  std::vector<std::shared_ptr<Chunk>> ch;
  uint32_t next = 1;
  Obj *get(uint32_t id) const {
    uint32_t c = id / CH;
    if (c >= ch.size() || !ch[c]) return nullptr;
    return ch[c]->o[id % CH].get();
  }
  ObjP &slot(uint32_t id) {
    uint32_t c = id / CH;
    if (c >= ch.size()) ch.resize(c + 1);
    if (!ch[c]) ch[c] = std::make_shared<Chunk>();
    else if (ch[c].use_count() > 1) ch[c] = std::make_shared<Chunk>(*ch[c]);
    return ch[c]->o[id % CH];
  }
  Obj *wr(uint32_t id) {
    ObjP &s = slot(id);
    if (s.use_count() > 1) s = std::make_shared<Obj>(*s);
    return s.get();
  }
  Obj *alloc(u64 size, ObjKind k, const std::string &nm) {
    if (size > (1ull << (ASH - 1))) return nullptr;
    uint32_t id = next++;
    auto o = std::make_shared<Obj>();
    o->id = id; o->size = size; o->kind = k; o->name = nm;
    o->bytes.assign(size, 0); o->init.assign(size, 0);
    slot(id) = o;
    return o.get();
  }
  static u64 addr(uint32_t id) { return (u64)id << ASH; }
};
static const u64 FNBASE = 1ull << 60;

// ------------------------------------------------------------------ lowered code
struct Ty { enum T : uint8_t { V, I, F, A } t = V; uint16_t w = 0; uint32_t size = 0; const Type *ty = nullptr; };
struct Inst {
  unsigned op; const Instruction *I; int dst = -1; Ty ty;
  std::vector<int> ops; std::vector<Ty> opty;
  int bb0 = -1, bb1 = -1;                 // branch targets
  i64 gepConst = 0; std::vector<std::pair<int, i64>> gepIdx;  // operand, scale
  std::vector<std::pair<u64, int>> cases; // switch
  const Function *callee = nullptr; int special = -1;
  std::vector<unsigned> idx;
};
struct PhiE { int dst; Ty ty; std::vector<std::pair<int, int>> in; };  // (pred bb, operand)
struct BB { int start; std::vector<PhiE> phis; const BasicBlock *b; };
struct Fn {
  const Function *F; int nregs = 0; std::vector<Inst> code; std::vector<BB> bbs; bool lowered = false;
  std::vector<Ty> argty;
};
struct Frame {
  Fn *fn; int pc; int bb; std::vector<Val> regs; int retdst; bool isInvoke; int normal, unwind;
  std::vector<uint32_t> allocas; std::vector<Val> varargs;
};
struct Input { std::string name; char kind; Ex e; };
struct CaughtExc { u64 obj; u64 ti; int handlers; u64 dtor; };

struct State {
  std::vector<Frame> st;
  Memory mem;
  std::vector<Ex> pc;
  std::vector<Input> inputs;
  std::unordered_map<unsigned, Ex> model;  // var ast id -> value
  bool modelOk = true;
  u64 steps = 0;
  // exceptions
  std::map<u64, u64> excTi;                // exception object -> typeinfo address
  std::vector<std::pair<u64, u64>> caught; // (object, adjusted)
  u64 uncaught = 0;
  std::vector<std::string> trace;
  std::vector<std::pair<Ex, Ex>> expApps;  // monotone UF instances (arg, value) per function name
  std::vector<std::string> expNames;
  std::map<unsigned, std::pair<Ex, Ex>> sqrtApps;  // arg id -> (arg, value)
  std::vector<u64> rnd;
  int forks = 0;
  std::vector<Val> tokens;                 // symbolic doubles printed as opaque text tokens
};
typedef std::shared_ptr<State> StateP;

// ------------------------------------------------------------------ globals of the engine
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static LLVMContext LC;
static std::unordered_map<const Function *, Fn *> fns;
static std::vector<const Function *> fnByIdx;
static std::unordered_map<const Value *, u64> gaddr;
static std::vector<Val> cpool;
static std::unordered_map<const Constant *, int> cpoolIdx;
static std::vector<StateP> work;
static State *S;           // current state
static StateP Sp;
static Frame *Fr;
static int instrStartPc;
static u64 totalSteps = 0, nForks = 0, nPaths = 0, nQueries = 0, nSat = 0, nUnsat = 0, nUnknown = 0, nAsserts = 0, nAssertSym = 0, nModelHits = 0, nTriv = 0;
static double solverTime = 0, tStart;
static double optTimeout = 300; static u64 optMaxSteps = 400000000ull; static u64 optMaxPaths = 1000000; static unsigned optQT = 20000, optQuick = 400, optFeas = 6000;
static int optMaxViol = 3; static bool optExact = true; static bool optVerbose = false; static bool optRat = true;
static u64 optPathSteps = 50000000ull;
static std::map<std::string, u64> reached, assertSeen, assertProved;
static std::set<std::string> fnExecuted;
struct Viol { std::string kind, msg, loc; std::vector<std::pair<std::string, std::string>> inputs; std::vector<char> kinds; std::string stack; };
static std::vector<Viol> viols;
static std::map<std::string, u64> violSeen;
static std::map<std::string, u64> inconcl;
static u64 maxLoopDepth = 0;
static std::string curLoc() {
  if (!S || S->st.empty()) return "?";
  for (int f = (int)S->st.size() - 1; f >= 0; f--) {
    Frame &fr = S->st[f];
    int p = f == (int)S->st.size() - 1 ? instrStartPc : fr.pc - 1;
    if (p < 0 || p >= (int)fr.fn->code.size()) continue;
    auto *I = fr.fn->code[p].I;
    if (auto &d = I->getDebugLoc()) {
      auto *sc = dyn_cast<DIScope>(d.getScope());
      std::string fnm = sc ? sc->getFilename().str() : "";
      if (fnm.find("/usr/") == 0) continue;  // prefer user code
      return fnm + ":" + std::to_string(d.getLine()) + " (" + fr.fn->F->getName().str() + ")";
    }
  }
  return S->st.back().fn->F->getName().str();
}
static std::string stackTrace() {
  std::string r;
  for (int f = (int)S->st.size() - 1; f >= 0; f--) {
    Frame &fr = S->st[f];
    int p = f == (int)S->st.size() - 1 ? instrStartPc : fr.pc - 1;
    r += "  " + fr.fn->F->getName().str();
    if (p >= 0 && p < (int)fr.fn->code.size())
      if (auto &d = fr.fn->code[p].I->getDebugLoc()) {
        auto *sc = dyn_cast<DIScope>(d.getScope());
        r += " " + (sc ? sc->getFilename().str() : "") + ":" + std::to_string(d.getLine());
      }
    r += "\n";
    if (r.size() > 3000) break;
  }
  return r;
}

// ------------------------------------------------------------------ solver
static std::unordered_map<unsigned, std::vector<unsigned>> varsCache;
static std::unordered_map<unsigned, Ex> varById;
static std::vector<Ex> keepAlive;  // keep ids stable for cached expressions
static const std::vector<unsigned> &varsOf(const z3::expr &e0) {
  unsigned id = Z3_get_ast_id(*C, e0);
  auto it = varsCache.find(id);
  if (it != varsCache.end()) return it->second;
  keepAlive.push_back(Ex(e0));
  std::set<unsigned> out; std::set<unsigned> seen;
  std::vector<z3::expr> st{e0};
  while (!st.empty()) {
    z3::expr e = st.back(); st.pop_back();
    unsigned i = Z3_get_ast_id(*C, e);
    if (!seen.insert(i).second) continue;
    if (!e.is_app()) continue;
    if (i != id) { auto c = varsCache.find(i); if (c != varsCache.end()) { out.insert(c->second.begin(), c->second.end()); continue; } }
    if (e.num_args() == 0) {
      if (e.decl().decl_kind() == Z3_OP_UNINTERPRETED) { out.insert(i); if (!varById.count(i)) varById[i] = Ex(e); }
    } else {
      if (e.decl().decl_kind() == Z3_OP_UNINTERPRETED) {
        // an uninterpreted function symbol links all of its applications
        unsigned fid = Z3_get_ast_id(*C, (Z3_ast)(Z3_func_decl)e.decl());
        out.insert(fid | 0x80000000u);
      }
      for (unsigned k = 0; k < e.num_args(); k++) st.push_back(e.arg(k));
    }
  }
  return varsCache[id] = std::vector<unsigned>(out.begin(), out.end());
}
#include "rat.inc"
// Facts that only define a term (a square root, an application of an uninterpreted function) can always be satisfied by
// that term, so they take part in a query only when all the terms they define do.
static std::unordered_map<unsigned, std::array<unsigned, 2>> defFact; static std::unordered_set<unsigned> defTerm, sqrtVars;
static std::unordered_map<unsigned, std::vector<unsigned>> defCache;
static const std::vector<unsigned> &defTermsOf(const z3::expr &e0) {
  unsigned id = Z3_get_ast_id(*C, e0); auto it = defCache.find(id); if (it != defCache.end()) return it->second;
  keepAlive.push_back(Ex(e0)); std::set<unsigned> out, seen; std::vector<z3::expr> st{e0};
  while (!st.empty()) { z3::expr e = st.back(); st.pop_back(); unsigned i = Z3_get_ast_id(*C, e); if (!seen.insert(i).second || !e.is_app()) continue; if (i != id) { auto c = defCache.find(i); if (c != defCache.end()) { out.insert(c->second.begin(), c->second.end()); continue; } } if (defTerm.count(i)) out.insert(i); for (unsigned k = 0; k < e.num_args(); k++) st.push_back(e.arg(k)); }
  return defCache[id] = std::vector<unsigned>(out.begin(), out.end()); }
static void closure(State &s, const z3::expr *c, bool all, std::vector<z3::expr> &out) {
  std::unordered_set<unsigned> vs, ds; auto add = [&](const z3::expr &e) { for (unsigned v : varsOf(e)) vs.insert(v); for (unsigned v : defTermsOf(e)) ds.insert(v); };
  if (c) add(*c);
  std::vector<char> used(s.pc.size(), 0); bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) {
      z3::expr e = s.pc[i].e(); auto f = defFact.find(Z3_get_ast_id(*C, e)); bool hit = false;
      if (f != defFact.end()) hit = ds.count(f->second[0]) && (!f->second[1] || ds.count(f->second[1]));
      else if (all) hit = true; else for (unsigned v : varsOf(e)) if (vs.count(v)) { hit = true; break; }
      if (hit) { used[i] = 1; ch = true; add(e); }
    } }
  for (size_t i = 0; i < s.pc.size(); i++) if (used[i]) out.push_back(s.pc[i].e());
}
static void sliceFor(State &s, const z3::expr &c, std::vector<z3::expr> &out) { closure(s, &c, false, out); }
static std::unordered_map<unsigned, uint8_t> realCache;
static uint8_t hasReal(const z3::expr &e0) {  // 1: real vars, 2: fpa
  unsigned id = Z3_get_ast_id(*C, e0);
  auto it = realCache.find(id); if (it != realCache.end()) return it->second;
  uint8_t r = 0;
  for (unsigned v : varsOf(e0)) { if (v & 0x80000000u) { r |= 1; continue; } auto s = varById[v].e().get_sort(); if (s.is_real()) r |= 1; if (s.is_fpa()) r |= 2; if (s.is_int()) r |= 1; }
  return realCache[id] = r;
}
static std::map<std::vector<unsigned>, int> qcache;
static z3::solver *fastSolver = nullptr;
static std::string lastUnknown;
// 1 sat, 0 unsat, -1 unknown. Fills model values of the slice variables when sat and m != null.
static int solve(const std::vector<z3::expr> &cs, std::unordered_map<unsigned, Ex> *m, unsigned timeout, unsigned quick, bool feas = false) {
  double t0 = now();
  nQueries++;
  uint8_t rl = 0; for (auto &c : cs) rl |= hasReal(c);
  z3::check_result r = z3::unknown;
  auto take = [&](z3::solver &sv) {
    if (!m) return;
    z3::model md = sv.get_model();
    std::set<unsigned> vs; for (auto &c : cs) for (unsigned v : varsOf(c)) if (!(v & 0x80000000u)) vs.insert(v);
    for (unsigned v : vs) (*m)[v] = Ex(md.eval(varById[v].e(), true));
  };
  try {
    {
      z3::solver sv(*C, z3::solver::simple());
      z3::params p(*C); p.set("timeout", (rl & 1) ? quick : timeout); p.set("random_seed", 1u);
      sv.set(p);
      for (auto &c : cs) sv.add(c);
      r = sv.check();
      if (r == z3::sat) take(sv);
    }
    if (r == z3::unknown && (rl & 1)) {
      z3::tactic t = z3::tactic(*C, "simplify") & z3::tactic(*C, "propagate-values") & z3::tactic(*C, "solve-eqs") & z3::tactic(*C, "purify-arith") & z3::tactic(*C, "simplify") & z3::tactic(*C, "tseitin-cnf") & z3::tactic(*C, "qfnra-nlsat");
      z3::solver sv = t.mk_solver();
      z3::params p(*C); p.set("timeout", timeout); sv.set(p);
      for (auto &c : cs) sv.add(c);
      try { r = sv.check(); if (r == z3::sat) take(sv); } catch (z3::exception &) { r = z3::unknown; }
      if (r == z3::unknown && !feas) {
        z3::solver s2(*C); z3::params p2(*C); p2.set("timeout", timeout); s2.set(p2);
        for (auto &c : cs) s2.add(c);
        r = s2.check();
        if (r == z3::sat) take(s2);
      }
    } else if (r == z3::unknown) {
      z3::solver s2(*C); z3::params p2(*C); p2.set("timeout", timeout); s2.set(p2);
      for (auto &c : cs) s2.add(c);
      r = s2.check();
      if (r == z3::sat) take(s2);
    }
  } catch (z3::exception &ex) { lastUnknown = ex.msg(); r = z3::unknown; }
  double dt = now() - t0; solverTime += dt;
  if (optVerbose && dt > 2) { std::cerr << "slow query " << dt << "s res " << r << " at " << curLoc() << "\n"; for (auto &c : cs) std::cerr << "   " << c << "\n"; }
  if (r == z3::sat) nSat++; else if (r == z3::unsat) nUnsat++; else nUnknown++;
  return r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
}
static int evalUnder(State &s, const z3::expr &c) {  // 1 true 0 false -1 don't know
  if (!s.modelOk) return -1;
  z3::expr_vector from(*C), to(*C);
  for (unsigned v : varsOf(c)) {
    if (v & 0x80000000u) return -1;
    auto it = s.model.find(v);
    z3::expr val(*C);
    if (it == s.model.end()) return -1;
    val = it->second.e();
    if (val.is_algebraic() || !(val.is_numeral() || val.is_true() || val.is_false() || val.is_fpa())) return -1;
    from.push_back(varById[v].e()); to.push_back(val);
  }
  z3::expr r = z3::expr(c).substitute(from, to).simplify();
  if (r.is_true()) return 1;
  if (r.is_false()) return 0;
  return -1;
}
static int checkSat(State &s, const z3::expr &c, std::unordered_map<unsigned, Ex> *m, bool feas = false) {
  std::vector<z3::expr> cs; sliceFor(s, c, cs); cs.push_back(c);
  std::vector<unsigned> key; for (auto &e : cs) { varsOf(e); key.push_back(Z3_get_ast_id(*C, e)); }
  std::sort(key.begin(), key.end());
  auto it = qcache.find(key);
  if (it != qcache.end() && it->second == 0) return 0;
  int r = -1;
  if (feas) {  // branch feasibility: an undecided branch is explored, so facts about uninterpreted functions may be left out to refute it
    bool uf = false; std::vector<z3::expr> lin; for (auto &e : cs) { bool u = false; for (unsigned v : varsOf(e)) u |= (v & 0x80000000u) != 0; if (u) uf = true; else lin.push_back(e); }
    if (uf && !lin.empty()) r = solve(lin, nullptr, optFeas, optQuick, true);
  }
  if (r != 0) r = solve(cs, m, feas ? optFeas : optQT, optQuick, feas);
  if (r == 0) qcache[key] = r;
  return r;
}
static void addPc(State &s, const z3::expr &c) {
  if (c.is_true()) return;
  if (c.is_and()) { for (unsigned i = 0; i < c.num_args(); i++) addPc(s, c.arg(i)); return; }
  s.pc.push_back(Ex(c)); varsOf(c);
}
static void addDef(State &s, const z3::expr &c, unsigned t1, unsigned t2 = 0) { if (c.is_true()) return; if (!c.is_and()) defFact[Z3_get_ast_id(*C, c)] = {t1, t2}; addPc(s, c); }
static void mergeModel(State &s, std::unordered_map<unsigned, Ex> &m) { for (auto it = s.model.begin(); it != s.model.end();) if (sqrtVars.count(it->first) && !m.count(it->first)) it = s.model.erase(it); else ++it;
  for (auto &kv : m) s.model[kv.first] = kv.second; }

// fork helper: clone of the current state rewound to the start of the current instruction
static StateP cloneAtInstr() {
  auto n = std::make_shared<State>(*S);
  n->st.back().pc = instrStartPc;
  nForks++;
  return n;
}
// decide a boolean; may fork.  Returns the side taken by the current state.
static bool decide(const z3::expr &c0) {
  z3::expr c = normC(normC(c0).simplify());
  if (c.is_true()) return true;
  if (c.is_false()) return false;
  z3::expr nc = (!c).simplify();
  // implied syntactically?
  for (auto &p : S->pc) { if (p.a == (Z3_ast)c) return true; if (p.a == (Z3_ast)nc) return false; }
  int ev = evalUnder(*S, c);
  int rt = -2, rf = -2;
  std::unordered_map<unsigned, Ex> mt, mf;
  if (ev == 1) { rt = 1; nModelHits++; }
  if (ev == 0) { rf = 1; nModelHits++; }
  if (rt == -2) rt = checkSat(*S, c, &mt, true);
  if (rt == 0 && rf == -2) { S->pc.size(); return false; }
  if (rf == -2) rf = checkSat(*S, nc, &mf, true);
  if (rt == -1) inconcl["feasibility unknown (explored anyway)"]++;
  if (rf == -1) inconcl["feasibility unknown (explored anyway)"]++;
  if (rt != 0 && rf != 0) {
    auto n = cloneAtInstr();
    addPc(*n, nc);
    if (rf == 1) { mergeModel(*n, mf); } else n->modelOk = false;
    n->forks++;
    work.push_back(n);
    addPc(*S, c);
    if (rt == 1) mergeModel(*S, mt); else S->modelOk = false;
    S->forks++;
    return true;
  }
  if (rt != 0) { return true; }
  if (rf != 0) { return false; }
  throw PathEnd();
}
static z3::expr evalModel(State &s, const z3::expr &e, bool &ok) {
  z3::expr_vector from(*C), to(*C);
  ok = true;
  for (unsigned v : varsOf(e)) {
    if (v & 0x80000000u) { ok = false; return e; }
    auto it = s.model.find(v);
    if (it == s.model.end()) { ok = false; return e; }
    from.push_back(varById[v].e()); to.push_back(it->second.e());
  }
  return z3::expr(e).substitute(from, to).simplify();
}
static bool refreshModel(State &s, const z3::expr *extra = nullptr) {
  std::vector<z3::expr> cs; closure(s, extra, true, cs);
  // solve slice by slice
  std::set<size_t> left; for (size_t i = 0; i < cs.size(); i++) left.insert(i);
  while (!left.empty()) {
    std::vector<z3::expr> sl; std::set<unsigned> vs;
    size_t i0 = *left.begin(); for (unsigned v : varsOf(cs[i0])) vs.insert(v);
    bool ch = true; sl.push_back(cs[i0]); left.erase(i0);
    while (ch) { ch = false;
      for (auto it = left.begin(); it != left.end();) {
        bool hit = false; for (unsigned v : varsOf(cs[*it])) if (vs.count(v)) { hit = true; break; }
        if (hit) { for (unsigned v : varsOf(cs[*it])) vs.insert(v); sl.push_back(cs[*it]); it = left.erase(it); ch = true; } else ++it;
      } }
    std::unordered_map<unsigned, Ex> m;
    int r = solve(sl, &m, optQT, optQuick);
    if (r == 0) throw PathEnd();
    if (r == 1) mergeModel(s, m); else { s.modelOk = false; return false; }
  }
  s.modelOk = true;
  return true;
}
static void ensureVarsInModel(State &s, const z3::expr &e) {
  for (unsigned v : varsOf(e)) if (!(v & 0x80000000u) && !s.model.count(v)) {
    if (sqrtVars.count(v)) { s.modelOk = false; continue; }
    auto x = varById[v].e(); auto so = x.get_sort();
    if (so.is_bv()) s.model[v] = Ex(C->bv_val(0, so.bv_size()));
    else if (so.is_real()) s.model[v] = Ex(C->real_val(0));
    else if (so.is_bool()) s.model[v] = Ex(C->bool_val(false));
    // note: only reached for unconstrained variables
  }
}
// concretize an integer expression, forking over its feasible values
static u64 concretize(const Val &v) {
  if (v.k == KInt) return v.i;
  if (v.k == KSymB) return decide(v.x.e()) ? 1 : 0;
  if (v.k != KSymI) throw Unsupported{"concretize of non integer"};
  z3::expr e = v.x.e().simplify();
  u64 out;
  if (e.is_numeral_u64(out)) return out;
  z3::expr val(*C); bool ok = false;
  ensureVarsInModel(*S, e);
  if (S->modelOk) val = evalModel(*S, e, ok);
  if (!ok || !val.is_numeral()) {
    if (refreshModel(*S, &e)) { ensureVarsInModel(*S, e); val = evalModel(*S, e, ok); }
    if (!ok || !val.is_numeral()) throw Unsupported{"cannot concretize"};
  }
  out = 0; val.is_numeral_u64(out);
  if (!decide(e == C->bv_val((uint64_t)out, v.w))) throw Refork();  // cannot happen: value comes from the model
  return out;
}

// ------------------------------------------------------------------ expression helpers
static z3::expr asBV(const Val &v) {
  switch (v.k) {
  case KInt: return C->bv_val((uint64_t)v.i, v.w);
  case KSymI: return v.x.e();
  case KSymB: return z3::ite(v.x.e(), C->bv_val(1, 1), C->bv_val(0, 1));
  case KUndef: return C->bv_val(0, v.w ? v.w : 64);
  case KSymF: return z3::expr(*C, Z3_mk_fpa_to_ieee_bv(*C, v.x.e()));
  case KFp: { u64 b = 0; if (v.w == 32) { float f = (float)v.d; memcpy(&b, &f, 4); } else memcpy(&b, &v.d, 8); return C->bv_val((uint64_t)b, v.w); }
  default: throw Unsupported{"real value used as bits"};
  }
}
static z3::expr asBool(const Val &v) {
  switch (v.k) {
  case KInt: return C->bool_val(v.i & 1);
  case KSymB: return v.x.e();
  case KSymI: return v.x.e() == C->bv_val(1, v.w);
  case KUndef: return C->bool_val(false);
  default: throw Unsupported{"asBool"};
  }
}
static Val mkI(z3::expr e, unsigned w) {
  e = e.simplify();
  if (w <= 64) { uint64_t o; if (e.is_numeral_u64(o)) return VI(o, w); }
  Val r; r.k = KSymI; r.w = w; r.x = Ex(e); return r;
}
static Val mkB(z3::expr e) {
  e = e.simplify();
  if (e.is_true()) return VI(1, 1);
  if (e.is_false()) return VI(0, 1);
  Val r; r.k = KSymB; r.w = 1; r.x = Ex(e); return r;
}
static z3::expr dblToReal(double d) {
  if (d == (double)(i64)d && std::fabs(d) < 9e15) return C->real_val((int64_t)d);
  int ex; double m = std::frexp(d, &ex);           // d = m * 2^ex
  i64 mi = (i64)std::ldexp(m, 53); ex -= 53;
  while (mi != 0 && (mi & 1) == 0) { mi >>= 1; ex++; }
  z3::expr r = C->real_val((int64_t)mi);
  // power of two as decimal string via repeated multiplication by z3
  z3::expr two = C->real_val(2), p = C->real_val(1);
  z3::expr b = two; unsigned n = ex < 0 ? -ex : ex;
  while (n) { if (n & 1) p = (p * b).simplify(); b = (b * b).simplify(); n >>= 1; }
  return (ex < 0 ? r / p : r * p).simplify();
}
static bool realToDbl(const z3::expr &e, double &out) {  // exact only
  if (!e.is_numeral()) return false;
  std::string n = Z3_get_numeral_string(*C, e);
  size_t sl = n.find('/');
  if (n.size() > 40) return false;
  std::string a = n.substr(0, sl), b = sl == std::string::npos ? "1" : n.substr(sl + 1);
  double x = strtod(a.c_str(), nullptr), y = strtod(b.c_str(), nullptr);
  if (std::fabs(x) > 9e15 || y > 9e15) return false;
  int ex; double m = std::frexp(y, &ex);
  if (m != 0.5) return false;
  out = x / y;
  return true;
}
static double realApprox(const z3::expr &e) {
  if (e.is_algebraic()) { z3::expr lo = e.algebraic_lower(20); return realApprox(lo); }
  std::string n = e.get_decimal_string(25);
  if (!n.empty() && n.back() == '?') n.pop_back();
  // prefer exact parsing of num/den
  if (e.is_numeral()) {
    std::string s = Z3_get_numeral_string(*C, e); size_t sl = s.find('/');
    if (sl != std::string::npos) { double a = strtod(s.substr(0, sl).c_str(), 0), b = strtod(s.substr(sl + 1).c_str(), 0); if (std::isfinite(a) && std::isfinite(b) && b != 0) return a / b; }
    else return strtod(s.c_str(), 0);
  }
  return strtod(n.c_str(), nullptr);
}
static z3::expr asReal(const Val &v) {
  if (v.k == KSymR) return v.x.e();
  if (v.k == KFp) { if (!std::isfinite(v.d)) throw Unsupported{"non-finite as real"}; return dblToReal(v.d); }
  if (v.k == KUndef) return C->real_val(0);
  throw Unsupported{"asReal of kind " + std::to_string(v.k)};
}
static Val mkR(z3::expr e) {
  double d;
  if (e.is_numeral() && realToDbl(e, d)) return VD(d);
  Val r; r.k = KSymR; r.w = 64; r.x = Ex(e); return r;
}
static z3::expr asFpa(const Val &v) {
  if (v.k == KSymF) return v.x.e();
  if (v.k == KFp) { if (std::isnan(v.d)) return z3::expr(*C, Z3_mk_fpa_nan(*C, C->fpa_sort<64>())); return C->fpa_val(v.d); }
  if (v.k == KUndef) return C->fpa_val(0.0);
  throw Unsupported{"asFpa of kind " + std::to_string(v.k)};
}
static Val mkF(z3::expr e) { e = e.simplify();
  Val r; r.k = KSymF; r.w = 64; r.x = Ex(e);
  if (Z3_is_numeral_ast(*C, e) || e.is_fpa()) {
    if (e.decl().decl_kind() == Z3_OP_FPA_NAN) return VD(NAN);
    if (e.decl().decl_kind() == Z3_OP_FPA_PLUS_INF) return VD(INFINITY);
    if (e.decl().decl_kind() == Z3_OP_FPA_MINUS_INF) return VD(-INFINITY);
    if (e.decl().decl_kind() == Z3_OP_FPA_PLUS_ZERO) return VD(0.0);
    if (e.decl().decl_kind() == Z3_OP_FPA_MINUS_ZERO) return VD(-0.0);
    if (e.num_args() == 0 && e.decl().decl_kind() == Z3_OP_FPA_NUM) {
      z3::expr b = z3::expr(*C, Z3_mk_fpa_to_ieee_bv(*C, e)).simplify(); uint64_t u; if (b.is_numeral_u64(u)) { double d; memcpy(&d, &u, 8); return VD(d); }
    }
  }
  return r; }

// ------------------------------------------------------------------ lowering
static int constIdx(const Constant *c);
static Ty tyOf(const Type *t) {
  Ty r; r.ty = t;
  if (t->isVoidTy()) { r.t = Ty::V; return r; }
  if (t->isIntegerTy()) { r.t = Ty::I; r.w = t->getIntegerBitWidth(); r.size = DL->getTypeStoreSize((Type *)t); return r; }
  if (t->isPointerTy()) { r.t = Ty::I; r.w = 64; r.size = 8; return r; }
  if (t->isDoubleTy()) { r.t = Ty::F; r.w = 64; r.size = 8; return r; }
  if (t->isFloatTy()) { r.t = Ty::F; r.w = 32; r.size = 4; return r; }
  if (t->isX86_FP80Ty()) { r.t = Ty::F; r.w = 64; r.size = 16; return r; }
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) { r.t = Ty::A; r.size = DL->getTypeAllocSize((Type *)t); return r; }
  r.t = Ty::V; return r;
}
static Val zeroOf(const Type *t) {
  Ty y = tyOf(t);
  if (y.t == Ty::I) return VI(0, y.w);
  if (y.t == Ty::F) return VD(0, y.w);
  if (y.t == Ty::A) {
    std::vector<Val> v;
    if (auto *st = dyn_cast<StructType>(t)) for (auto *e : st->elements()) v.push_back(zeroOf(e));
    else if (auto *at = dyn_cast<ArrayType>(t)) for (u64 i = 0; i < at->getNumElements(); i++) v.push_back(zeroOf(at->getElementType()));
    else if (auto *vt = dyn_cast<FixedVectorType>(t)) for (u64 i = 0; i < vt->getNumElements(); i++) v.push_back(zeroOf(vt->getElementType()));
    return VAgg(v);
  }
  return VI(0, 64);
}
static Val evalConst(const Constant *c) {
  const Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64) return VI(ci->getZExtValue(), ci->getBitWidth());
    SmallString<64> s; ci->getValue().toString(s, 10, false);
    Val r; r.k = KSymI; r.w = ci->getBitWidth(); r.x = Ex(C->bv_val(s.c_str(), ci->getBitWidth())); return r;
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    if (t->isDoubleTy()) return VD(cf->getValueAPF().convertToDouble());
    if (t->isFloatTy()) return VD(cf->getValueAPF().convertToFloat(), 32);
    APFloat f = cf->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return VD(f.convertToDouble());
  }
  if (isa<ConstantPointerNull>(c)) return VP(0);
  if (isa<UndefValue>(c)) return zeroOf(t);
  if (isa<ConstantAggregateZero>(c)) return zeroOf(t);
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) { std::vector<Val> v; for (auto &o : ca->operands()) v.push_back(evalConst(cast<Constant>(o))); return VAgg(v); }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(evalConst(cd->getElementAsConstant(i))); return VAgg(v); }
  if (isa<GlobalValue>(c)) {
    if (auto *ga = dyn_cast<GlobalAlias>(c)) return evalConst(ga->getAliasee());
    auto it = gaddr.find(c); if (it != gaddr.end()) return VP(it->second);
    throw Unsupported{"unknown global " + c->getName().str()};
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *g = cast<GEPOperator>(ce); APInt off(64, 0);
      if (!g->accumulateConstantOffset(*DL, off)) throw Unsupported{"const gep"};
      Val b = evalConst(cast<Constant>(ce->getOperand(0))); return VP(b.i + off.getSExtValue());
    }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
      Val v = evalConst(ce->getOperand(0)); Ty y = tyOf(t); if (y.t == Ty::I) { v.w = y.w; v.i = maskw(v.i, y.w); } return v; }
    case Instruction::Trunc: { Val v = evalConst(ce->getOperand(0)); return VI(v.i, tyOf(t).w); }
    case Instruction::Sub: return VI(evalConst(ce->getOperand(0)).i - evalConst(ce->getOperand(1)).i, tyOf(t).w);
    case Instruction::Add: return VI(evalConst(ce->getOperand(0)).i + evalConst(ce->getOperand(1)).i, tyOf(t).w);
    default: throw Unsupported{std::string("constant expression ") + ce->getOpcodeName()};
    }
  }
  throw Unsupported{"constant kind"};
}
static int constIdx(const Constant *c) {
  auto it = cpoolIdx.find(c); if (it != cpoolIdx.end()) return it->second;
  Val v;
  try { v = evalConst(c); } catch (Unsupported &u) { v = Val(); v.k = KUndef; }
  cpool.push_back(v); int r = -(int)cpool.size(); cpoolIdx[c] = r; return r;
}
#include "special.inc"
static void lower(Fn *f) {
  f->lowered = true;
  const Function *F = f->F;
  std::unordered_map<const Value *, int> reg; std::unordered_map<const BasicBlock *, int> bbi;
  int n = 0;
  for (auto &a : F->args()) { reg[&a] = n++; f->argty.push_back(tyOf(a.getType())); }
  int bi = 0;
  for (auto &b : *F) { bbi[&b] = bi++; for (auto &I : b) if (!I.getType()->isVoidTy()) reg[&I] = n++; }
  f->nregs = n;
  auto opnd = [&](const Value *v) -> int {
    if (auto *c = dyn_cast<Constant>(v)) return constIdx(c);
    auto it = reg.find(v); if (it != reg.end()) return it->second;
    return constIdx(ConstantInt::get(Type::getInt64Ty(LC), 0));  // metadata, labels, inline asm
  };
  for (auto &b : *F) {
    BB B; B.b = &b; B.start = f->code.size();
    for (auto &I : b) {
      if (auto *p = dyn_cast<PHINode>(&I)) {
        PhiE e; e.dst = reg[&I]; e.ty = tyOf(I.getType());
        for (unsigned k = 0; k < p->getNumIncomingValues(); k++) e.in.push_back({bbi[p->getIncomingBlock(k)], opnd(p->getIncomingValue(k))});
        B.phis.push_back(e); continue;
      }
      if (isa<DbgInfoIntrinsic>(I)) continue;
      Inst x; x.op = I.getOpcode(); x.I = &I; x.ty = tyOf(I.getType());
      if (!I.getType()->isVoidTy()) x.dst = reg[&I];
      if (auto *br = dyn_cast<BranchInst>(&I)) {
        x.bb0 = bbi[br->getSuccessor(0)];
        if (br->isConditional()) { x.bb1 = bbi[br->getSuccessor(1)]; x.ops.push_back(opnd(br->getCondition())); }
      } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
        x.ops.push_back(opnd(sw->getCondition())); x.opty.push_back(tyOf(sw->getCondition()->getType())); x.bb0 = bbi[sw->getDefaultDest()];
        for (auto &cs : sw->cases()) x.cases.push_back({cs.getCaseValue()->getZExtValue(), bbi[cs.getCaseSuccessor()]});
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        x.ops.push_back(opnd(g->getPointerOperand()));
        i64 c = 0;
        for (gep_type_iterator gi = gep_type_begin(g), e = gep_type_end(g); gi != e; ++gi) {
          Value *o = gi.getOperand();
          if (StructType *st = gi.getStructTypeOrNull()) { c += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(o)->getZExtValue()); }
          else { i64 sc = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(o)) c += ci->getSExtValue() * sc; else x.gepIdx.push_back({opnd(o), sc}); }
        }
        x.gepConst = c;
      } else if (auto *cb = dyn_cast<CallBase>(&I)) {
        if (auto *iv = dyn_cast<InvokeInst>(&I)) { x.bb0 = bbi[iv->getNormalDest()]; x.bb1 = bbi[iv->getUnwindDest()]; }
        for (auto &a : cb->args()) { x.ops.push_back(opnd(a)); x.opty.push_back(tyOf(a->getType())); }
        const Value *cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
        if (auto *cf = dyn_cast<Function>(cv)) { x.callee = cf; x.special = specialId(cf); }
        else x.ops.push_back(opnd(cb->getCalledOperand()));
      } else {
        for (auto &o : I.operands()) { x.ops.push_back(opnd(o)); x.opty.push_back(tyOf(o->getType())); }
        if (auto *ev = dyn_cast<ExtractValueInst>(&I)) x.idx.assign(ev->idx_begin(), ev->idx_end());
        if (auto *iv = dyn_cast<InsertValueInst>(&I)) x.idx.assign(iv->idx_begin(), iv->idx_end());
        if (auto *al = dyn_cast<AllocaInst>(&I)) x.gepConst = DL->getTypeAllocSize(al->getAllocatedType());
        if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) for (int m : sv->getShuffleMask()) x.idx.push_back((unsigned)m);
      }
      f->code.push_back(std::move(x));
    }
    f->bbs.push_back(std::move(B));
  }
}
static Fn *getFn(const Function *F) {
  auto it = fns.find(F); Fn *f;
  if (it == fns.end()) { f = new Fn(); f->F = F; fns[F] = f; } else f = it->second;
  if (!f->lowered) lower(f);
  return f;
}
static inline const Val &ev(int o) { return o >= 0 ? Fr->regs[o] : cpool[-o - 1]; }

// ------------------------------------------------------------------ memory access
static std::string hex(u64 v) { char b[32]; snprintf(b, 32, "0x%lx", (unsigned long)v); return b; }
static uint32_t resolve(u64 addr, u64 n, bool write, u64 &off) {
  uint32_t id = addr >> ASH; off = addr & ((1ull << ASH) - 1);
  if (addr < (1ull << ASH)) throw Violation{"memory", "null/invalid pointer dereference " + hex(addr)};
  Obj *o = S->mem.get(id);
  if (!o) throw Violation{"memory", "access to unallocated memory " + hex(addr)};
  if (o->freed) throw Violation{"memory", "use after free/scope of " + o->name};
  if (off + n > o->size) throw Violation{"memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string((i64)(off > (1ull << (ASH - 1)) ? (i64)off - (1ll << ASH) : (i64)off)) + " of object '" + o->name + "' size " + std::to_string(o->size)};
  if (write && o->ro) throw Violation{"memory", "write to constant " + o->name};
  if (o->kind == OExtern) throw Unsupported{"access to external global " + o->name};
  return id;
}
static void clearOv(Obj *o, u64 off, u64 n) {
  if (o->ov.empty()) return;
  auto it = o->ov.lower_bound(off > 64 ? off - 64 : 0);
  while (it != o->ov.end() && it->first < off + n) {
    if (it->first + it->second.size <= off) { ++it; continue; }
    u64 s = it->first, sz = it->second.size; Val v = it->second.v;
    if (s >= off && s + sz <= off + n) { it = o->ov.erase(it); continue; }
    // partial overlap: split the symbolic cell into bytes
    if (v.k == KSymR) throw Unsupported{"partial overwrite of a real"};
    z3::expr b = asBV(v); it = o->ov.erase(it);
    for (u64 k = 0; k < sz; k++) if (s + k < off || s + k >= off + n) {
      Val bv = mkI(b.extract(8 * k + 7, 8 * k), 8);
      if (bv.k == KInt) o->bytes[s + k] = bv.i; else o->ov[s + k] = Cell{1, bv};
    }
    it = o->ov.lower_bound(off > 64 ? off - 64 : 0);
  }
}
static void storeScalar(Obj *o, u64 off, u64 n, const Val &v) {
  clearOv(o, off, n);
  memset(&o->init[off], 1, n);
  switch (v.k) {
  case KInt: memcpy(&o->bytes[off], &v.i, n <= 8 ? n : 8); if (n > 8) memset(&o->bytes[off + 8], 0, n - 8); break;
  case KFp: if (n == 4) { float f = (float)v.d; memcpy(&o->bytes[off], &f, 4); } else { memcpy(&o->bytes[off], &v.d, 8); if (n > 8) memset(&o->bytes[off + 8], 0, n - 8); } break;
  case KUndef: memset(&o->bytes[off], 0, n); break;
  case KSymB: if (n != 1) { Val t = mkI(z3::zext(asBV(v), n * 8 - 1), n * 8); o->ov[off] = Cell{(uint32_t)n, t}; } else { Val t = mkI(z3::ite(v.x.e(), C->bv_val(1, 8), C->bv_val(0, 8)), 8); o->ov[off] = Cell{1, t}; } break;
  case KSymI: {
    if (v.w == n * 8) o->ov[off] = Cell{(uint32_t)n, v};
    else { Val t = mkI(z3::zext(v.x.e(), n * 8 - v.w), n * 8); if (t.k == KInt) { storeScalar(o, off, n, t); return; } t.prov = v.prov; o->ov[off] = Cell{(uint32_t)n, t}; }
    break;
  }
  case KSymR: case KSymF: o->ov[off] = Cell{(uint32_t)n, v}; break;
  default: throw Unsupported{"store of aggregate as scalar"};
  }
}
static int undefCnt = 0;
static Val loadScalar(uint32_t id, u64 off, u64 n, const Ty &ty) {
  Obj *o = S->mem.get(id);
  bool allInit = true, anyInit = false;
  for (u64 k = 0; k < n && k < o->size; k++) { if (!o->init[off + k]) allInit = false; else anyInit = true; }
  if (!allInit && !(ty.t == Ty::F && ty.size == 16)) {
    // reading uninitialised memory: an arbitrary value (bytes already written keep theirs)
    o = S->mem.wr(id);
    std::string nm = "undef_" + std::to_string(undefCnt++);
    if (!anyInit && ty.t == Ty::F && ty.w == 64) { Val v; v.k = KSymR; v.w = 64; v.x = Ex(C->real_const(nm.c_str())); S->inputs.push_back({nm, 'u', v.x}); varsOf(v.x.e()); storeScalar(o, off, n, v); }
    else for (u64 k = 0; k < n; k++) if (!o->init[off + k]) {
      std::string nb = nm + "_" + std::to_string(k);
      Val v; v.k = KSymI; v.w = 8; v.x = Ex(C->bv_const(nb.c_str(), 8)); varsOf(v.x.e()); storeScalar(o, off + k, 1, v); }
    for (unsigned vv : varsOf(o->ov.count(off) ? o->ov[off].v.x.e() : C->bool_val(true))) (void)vv;
  }
  if (o->ov.empty()) goto concrete;
  {
    auto it = o->ov.find(off);
    if (it != o->ov.end() && it->second.size == n) {
      Val v = it->second.v;
      if (ty.t == Ty::F) { if (v.k == KSymI) { if (ty.w == 64) { return mkF(z3::expr(*C, Z3_mk_fpa_to_fp_bv(*C, v.x.e(), C->fpa_sort<64>()))); } throw Unsupported{"int cell as float"}; } return v; }
      if (ty.t == Ty::I && v.k == KSymI && v.w > ty.w) { if (ty.w == 1) return mkB(v.x.e().extract(0, 0) == C->bv_val(1, 1)); return mkI(v.x.e().extract(ty.w - 1, 0), ty.w); }
      return v;
    }
    bool hit = false;
    auto jt = o->ov.lower_bound(off > 64 ? off - 64 : 0);
    for (; jt != o->ov.end() && jt->first < off + n; ++jt) if (jt->first + jt->second.size > off) { hit = true; break; }
    if (hit) {
      z3::expr acc(*C); bool first = true;
      u64 p = off;
      while (p < off + n) {
        // covering cell?
        auto kt = o->ov.upper_bound(p); z3::expr piece(*C); u64 adv = 1; bool got = false;
        if (kt != o->ov.begin()) { --kt; if (kt->first + kt->second.size > p) {
          u64 s = kt->first; adv = std::min<u64>(s + kt->second.size, off + n) - p;
          if (kt->second.v.k == KSymR) throw Unsupported{"partial read of a real"};
          z3::expr b = asBV(kt->second.v); piece = b.extract(8 * (p - s + adv) - 1, 8 * (p - s)); got = true; } }
        if (!got) { piece = C->bv_val((unsigned)o->bytes[p], 8); adv = 1; }
        acc = first ? piece : z3::concat(piece, acc); first = false; p += adv;
      }
      if (ty.t == Ty::F) return mkF(z3::expr(*C, Z3_mk_fpa_to_fp_bv(*C, acc, C->fpa_sort<64>())));
      if (ty.w < n * 8) { if (ty.w == 1) return mkB(acc.extract(0, 0) == C->bv_val(1, 1)); return mkI(acc.extract(ty.w - 1, 0), ty.w); }
      return mkI(acc, ty.w);
    }
  }
concrete:
  if (ty.t == Ty::F) { if (ty.w == 32) { float f; memcpy(&f, &o->bytes[off], 4); return VD(f, 32); } double d; memcpy(&d, &o->bytes[off], 8); return VD(d); }
  if (n > 8) { z3::expr acc = C->bv_val((unsigned)o->bytes[off], 8); for (u64 k = 1; k < n; k++) acc = z3::concat(C->bv_val((unsigned)o->bytes[off + k], 8), acc); Val r; r.k = KSymI; r.w = n * 8; r.x = Ex(acc.simplify()); return r; }
  u64 v = 0; memcpy(&v, &o->bytes[off], n); return VI(v, ty.w);
}
static void elems(const Type *t, std::vector<std::pair<u64, const Type *>> &out) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout((StructType *)st); for (unsigned i = 0; i < st->getNumElements(); i++) out.push_back({sl->getElementOffset(i), st->getElementType(i)}); }
  else if (auto *at = dyn_cast<ArrayType>(t)) { u64 s = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) out.push_back({i * s, at->getElementType()}); }
  else if (auto *vt = dyn_cast<FixedVectorType>(t)) { u64 s = DL->getTypeAllocSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) out.push_back({i * s, vt->getElementType()}); }
}
static Val loadTy(u64 addr, const Ty &ty) {
  if (ty.t == Ty::A) { std::vector<std::pair<u64, const Type *>> es; elems(ty.ty, es); std::vector<Val> v; for (auto &e : es) v.push_back(loadTy(addr + e.first, tyOf(e.second))); return VAgg(v); }
  u64 off; uint32_t id = resolve(addr, ty.size, false, off);
  return loadScalar(id, off, ty.size, ty);
}
static void storeTy(u64 addr, const Ty &ty, const Val &v) {
  if (ty.t == Ty::A) { std::vector<std::pair<u64, const Type *>> es; elems(ty.ty, es); for (size_t i = 0; i < es.size(); i++) storeTy(addr + es[i].first, tyOf(es[i].second), v.k == KAgg ? (*v.agg)[i] : zeroOf(es[i].second)); return; }
  u64 off; uint32_t id = resolve(addr, ty.size, true, off);
  storeScalar(S->mem.wr(id), off, ty.size, v);
}
// turn a (possibly symbolic) address into a concrete one; checks bounds over all values first
static u64 addrOf(const Val &p, u64 n, bool write) {
  if (p.k == KInt) return p.i;
  if (p.k == KUndef) throw Violation{"memory", "dereference of undefined pointer"};
  if (p.k != KSymI) throw Unsupported{"address kind"};
  if (p.prov) {
    Obj *o = S->mem.get(p.prov);
    if (o && !o->freed && o->size >= n) {
      z3::expr base = C->bv_val((uint64_t)Memory::addr(p.prov), 64);
      z3::expr in = z3::ule(p.x.e() - base, C->bv_val((uint64_t)(o->size - n), 64));
      if (!decide(in)) throw Violation{"memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " via symbolic index of object '" + o->name + "' size " + std::to_string(o->size)};
    } else throw Violation{"memory", std::string("access via symbolic index to ") + (o ? (o->freed ? "freed " : "too small ") + o->name : "?")};
  }
  return concretize(p);
}
static Val loadPtr(const Val &p, const Ty &ty) {
  if (p.k == KSymI && p.prov && ty.t != Ty::A) {
    // read-only table lookup with a symbolic index: build an ite chain when cells are plain scalars
    Obj *o = S->mem.get(p.prov);
    if (o && !o->freed && o->size >= ty.size && o->size / ty.size <= 64 && o->size % ty.size == 0) {
      z3::expr base = C->bv_val((uint64_t)Memory::addr(p.prov), 64);
      z3::expr offx = (p.x.e() - base).simplify();
      z3::expr in = z3::ule(offx, C->bv_val((uint64_t)(o->size - ty.size), 64));
      if (!decide(in)) throw Violation{"memory", "out-of-bounds read via symbolic index of object '" + o->name + "' size " + std::to_string(o->size)};
      z3::expr al = z3::urem(offx, C->bv_val((uint64_t)ty.size, 64)) == C->bv_val(0, 64);
      z3::expr als = al.simplify();
      if (als.is_true() || checkSat(*S, !al, nullptr) == 0) {
        std::vector<Val> vs; bool plain = true; Kind k = KUndef;
        for (u64 q = 0; q < o->size && plain; q += ty.size) {
          for (u64 z = 0; z < ty.size; z++) if (!o->init[q + z]) plain = false;
          if (!plain) break;
          Val v = loadScalar(p.prov, q, ty.size, ty); vs.push_back(v);
          if (v.k == KFp && !std::isfinite(v.d)) plain = false;
          if (v.k == KSymI && v.prov) plain = false;
          if (v.k == KSymR) k = KSymR; else if (v.k == KSymF) k = KSymF;
          if (ty.t == Ty::I && ty.ty->isPointerTy()) plain = false;
        }
        if (plain) {
          if (ty.t == Ty::I) { z3::expr r = ty.w == 1 ? z3::ite(asBool(vs[0]), C->bv_val(1, 1), C->bv_val(0, 1)) : asBV(vs[0]); for (size_t q = 1; q < vs.size(); q++) r = z3::ite(offx == C->bv_val((uint64_t)(q * ty.size), 64), asBV(vs[q]), r); return ty.w == 1 ? mkB(r == C->bv_val(1, 1)) : mkI(r, ty.w); }
          if (k == KSymF) { z3::expr r = asFpa(vs[0]); for (size_t q = 1; q < vs.size(); q++) r = z3::ite(offx == C->bv_val((uint64_t)(q * ty.size), 64), asFpa(vs[q]), r); return mkF(r); }
          if (ty.w == 64) { z3::expr r = asReal(vs[0]); for (size_t q = 1; q < vs.size(); q++) r = z3::ite(offx == C->bv_val((uint64_t)(q * ty.size), 64), asReal(vs[q]), r); return mkR(r.simplify()); }
        }
      }
    }
  }
  return loadTy(addrOf(p, ty.size, false), ty);
}
static void memCopy(u64 d, u64 s, u64 n) {
  if (!n) return;
  u64 so, dof; uint32_t si = resolve(s, n, false, so), di = resolve(d, n, true, dof);
  Obj *src = S->mem.get(si);
  std::vector<uint8_t> b(src->bytes.begin() + so, src->bytes.begin() + so + n), in(src->init.begin() + so, src->init.begin() + so + n);
  std::vector<std::pair<u64, Cell>> cells;
  if (!src->ov.empty()) {
    auto it = src->ov.lower_bound(so > 64 ? so - 64 : 0);
    for (; it != src->ov.end() && it->first < so + n; ++it) {
      u64 cs = it->first, ce = cs + it->second.size; if (ce <= so) continue;
      if (cs >= so && ce <= so + n) cells.push_back({cs - so, it->second});
      else { z3::expr bv = asBV(it->second.v); for (u64 k = cs; k < ce; k++) if (k >= so && k < so + n) cells.push_back({k - so, Cell{1, mkI(bv.extract(8 * (k - cs) + 7, 8 * (k - cs)), 8)}}); }
    }
  }
  Obj *dst = S->mem.wr(di);
  clearOv(dst, dof, n);
  memcpy(&dst->bytes[dof], b.data(), n); memcpy(&dst->init[dof], in.data(), n);
  for (auto &c : cells) { if (c.second.v.k == KInt) dst->bytes[dof + c.first] = c.second.v.i; else dst->ov[dof + c.first] = c.second; }
}
static std::string readStr(u64 a) {
  std::string r;
  for (int i = 0; i < 400; i++) { Ty t; t.t = Ty::I; t.w = 8; t.size = 1; Val v = loadTy(a + i, t); if (v.k != KInt) { r += '?'; continue; } if (!v.i) break; r += (char)v.i; }
  return r;
}

// ------------------------------------------------------------------ arithmetic
static Val binInt(unsigned op, const Val &a0, const Val &b0, unsigned w, const Instruction *I) {
  if ((a0.k == KInt || a0.k == KUndef) && (b0.k == KInt || b0.k == KUndef) && w <= 64) {
    u64 a = a0.i, b = b0.i;
    switch (op) {
    case Instruction::Add: return VI(a + b, w);
    case Instruction::Sub: return VI(a - b, w);
    case Instruction::Mul: return VI(a * b, w);
    case Instruction::And: return VI(a & b, w);
    case Instruction::Or: return VI(a | b, w);
    case Instruction::Xor: return VI(a ^ b, w);
    case Instruction::Shl: return VI(b >= w ? 0 : a << b, w);
    case Instruction::LShr: return VI(b >= w ? 0 : a >> b, w);
    case Instruction::AShr: return VI(b >= w ? (sextw(a, w) < 0 ? -1 : 0) : sextw(a, w) >> b, w);
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
      if (b == 0) throw Violation{"arith", "integer division by zero"};
      if (op == Instruction::UDiv) return VI(a / b, w);
      if (op == Instruction::URem) return VI(a % b, w);
      if (sextw(b, w) == -1) { return op == Instruction::SDiv ? VI(-a, w) : VI(0, w); }
      if (op == Instruction::SDiv) return VI(sextw(a, w) / sextw(b, w), w);
      return VI(sextw(a, w) % sextw(b, w), w);
    }
  }
  if (w == 1) {
    z3::expr a = asBool(a0), b = asBool(b0);
    switch (op) {
    case Instruction::And: return mkB(a && b);
    case Instruction::Or: return mkB(a || b);
    case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkB(a != b);
    case Instruction::Mul: return mkB(a && b);
    }
    throw Unsupported{"i1 op"};
  }
  if (a0.k == KSymR || b0.k == KSymR) throw Unsupported{"integer arithmetic on real bits"};
  z3::expr a = asBV(a0), b = asBV(b0);
  Val r; uint32_t prov = 0;
  if (op == Instruction::Add || op == Instruction::Sub) prov = a0.prov ? a0.prov : (op == Instruction::Add ? b0.prov : 0);
  if (a0.prov && b0.prov) prov = 0;
  switch (op) {
  case Instruction::Add: r = mkI(a + b, w); break;
  case Instruction::Sub: r = mkI(a - b, w); break;
  case Instruction::Mul: r = mkI(a * b, w); break;
  case Instruction::And: r = mkI(a & b, w); break;
  case Instruction::Or: r = mkI(a | b, w); break;
  case Instruction::Xor: r = mkI(a ^ b, w); break;
  case Instruction::Shl: r = mkI(z3::shl(a, b), w); break;
  case Instruction::LShr: r = mkI(z3::lshr(a, b), w); break;
  case Instruction::AShr: r = mkI(z3::ashr(a, b), w); break;
  default:
    if (!decide(b != C->bv_val(0, w))) throw Violation{"arith", "integer division by zero"};
    if (op == Instruction::UDiv) r = mkI(z3::udiv(a, b), w);
    else if (op == Instruction::URem) r = mkI(z3::urem(a, b), w);
    else if (op == Instruction::SDiv) r = mkI(a / b, w);
    else r = mkI(z3::srem(a, b), w);
  }
  r.prov = prov;
  return r;
}
static Val realSqrt(const z3::expr &e0);
static Val binFp(unsigned op, const Val &a, const Val &b, unsigned w) {
  if ((a.k == KFp || a.k == KUndef) && (b.k == KFp || b.k == KUndef)) {
    double x = a.d, y = b.d, r;
    switch (op) {
    case Instruction::FAdd: r = x + y; break;
    case Instruction::FSub: r = x - y; break;
    case Instruction::FMul: r = x * y; break;
    case Instruction::FDiv: r = x / y; break;
    case Instruction::FRem: r = std::fmod(x, y); break;
    default: throw Unsupported{"fp op"};
    }
    if (optExact && w == 64 && std::isfinite(x) && std::isfinite(y) && std::isfinite(r)) {
      bool exact = true;
      switch (op) {
      case Instruction::FAdd: case Instruction::FSub: { double yy = op == Instruction::FSub ? -y : y; double bb = r - x; double err = (x - (r - bb)) + (yy - bb); exact = err == 0; break; }
      case Instruction::FMul: exact = std::fma(x, y, -r) == 0; break;
      case Instruction::FDiv: exact = std::fma(r, y, -x) == 0; break;
      }
      if (!exact) {
        z3::expr ea = dblToReal(x), eb = dblToReal(y);
        z3::expr e = op == Instruction::FAdd ? ea + eb : op == Instruction::FSub ? ea - eb : op == Instruction::FMul ? ea * eb : ea / eb;
        return mkR(e.simplify());
      }
    }
    return VD(r, w);
  }
  if (a.k == KSymF || b.k == KSymF) {
    z3::expr x = asFpa(a), y = asFpa(b);
    switch (op) {
    case Instruction::FAdd: return mkF(x + y);
    case Instruction::FSub: return mkF(x - y);
    case Instruction::FMul: return mkF(x * y);
    case Instruction::FDiv: return mkF(x / y);
    }
    throw Unsupported{"fpa op"};
  }
  // real arithmetic; non finite concrete operands follow IEEE rules
  if ((a.k == KFp && std::isnan(a.d)) || (b.k == KFp && std::isnan(b.d))) return VD(NAN);
  auto sgn = [&](const Val &v) -> int { if (v.k == KFp) return v.d > 0 ? 1 : v.d < 0 ? -1 : 0; z3::expr e = v.x.e(); if (decide(e > 0)) return 1; if (decide(e < 0)) return -1; return 0; };
  bool ia = a.k == KFp && std::isinf(a.d), ib = b.k == KFp && std::isinf(b.d);
  if (ia || ib) {
    switch (op) {
    case Instruction::FAdd: return VD(ia ? a.d : b.d);
    case Instruction::FSub: return VD(ia ? a.d : -b.d);
    case Instruction::FMul: { int s = ia ? sgn(b) : sgn(a); if (s == 0) return VD(NAN); return VD((ia ? a.d : b.d) * s); }
    case Instruction::FDiv: if (ib) return VD(0.0); { int s = sgn(b); return VD(s < 0 ? -a.d : a.d); }
    }
  }
  z3::expr x = asReal(a), y = asReal(b);
  switch (op) {
  case Instruction::FAdd: if (a.k == KFp && a.d == 0) return b; if (b.k == KFp && b.d == 0) return a; { z3::expr e = x + y; return mkR(x.is_numeral() && y.is_numeral() ? e.simplify() : e); }
  case Instruction::FSub: if (b.k == KFp && b.d == 0) return a; { z3::expr e = x - y; if (x.id() == y.id()) return VD(0); return mkR(x.is_numeral() && y.is_numeral() ? e.simplify() : e); }
  case Instruction::FMul: if ((a.k == KFp && a.d == 0) || (b.k == KFp && b.d == 0)) return VD(0); if (a.k == KFp && a.d == 1) return b; if (b.k == KFp && b.d == 1) return a; { z3::expr e = x * y; return mkR(x.is_numeral() && y.is_numeral() ? e.simplify() : e); }
  case Instruction::FDiv: {
    if (b.k == KFp && b.d == 1) return a;
    z3::expr ys = y.simplify(z3::params(*C));
    bool zero = ys.is_numeral() ? (ys.simplify().get_decimal_string(3) == "0") : decide(y == 0);
    if (zero) { int s = sgn(a); return VD(s == 0 ? NAN : s > 0 ? INFINITY : -INFINITY); }
    z3::expr e = x / y; if (x.is_numeral() && y.is_numeral()) return mkR(e.simplify()); { z3::expr q = normR(e); if (q.is_numeral()) return mkR(q.simplify()); return mkR(q); }
  }
  case Instruction::FRem: throw Unsupported{"frem on reals"};
  }
  throw Unsupported{"fp op"};
}
static Val fcmp(CmpInst::Predicate p, const Val &a, const Val &b) {
  bool ca = a.k == KFp || a.k == KUndef, cb = b.k == KFp || b.k == KUndef;
  if (p == CmpInst::FCMP_TRUE) return VI(1, 1);
  if (p == CmpInst::FCMP_FALSE) return VI(0, 1);
  if (ca && cb) {
    double x = a.d, y = b.d; bool un = std::isnan(x) || std::isnan(y); bool r = false;
    switch (p) {
    case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break;
    case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break;
    case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break;
    case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break;
    default: break;
    }
    return VI(r, 1);
  }
  if (a.k == KSymF || b.k == KSymF) {
    z3::expr x = asFpa(a), y = asFpa(b);
    auto isn = [&](const z3::expr &e) { return z3::expr(*C, Z3_mk_fpa_is_nan(*C, e)); };
    z3::expr un = isn(x) || isn(y);
    auto eq = z3::expr(*C, Z3_mk_fpa_eq(*C, x, y)); auto lt = z3::expr(*C, Z3_mk_fpa_lt(*C, x, y)); auto gt = z3::expr(*C, Z3_mk_fpa_gt(*C, x, y)); auto le = z3::expr(*C, Z3_mk_fpa_leq(*C, x, y)); auto ge = z3::expr(*C, Z3_mk_fpa_geq(*C, x, y));
    switch (p) {
    case CmpInst::FCMP_OEQ: return mkB(eq); case CmpInst::FCMP_OGT: return mkB(gt); case CmpInst::FCMP_OGE: return mkB(ge); case CmpInst::FCMP_OLT: return mkB(lt); case CmpInst::FCMP_OLE: return mkB(le);
    case CmpInst::FCMP_ONE: return mkB(lt || gt); case CmpInst::FCMP_ORD: return mkB(!un); case CmpInst::FCMP_UNO: return mkB(un); case CmpInst::FCMP_UEQ: return mkB(un || eq); case CmpInst::FCMP_UGT: return mkB(un || gt);
    case CmpInst::FCMP_UGE: return mkB(un || ge); case CmpInst::FCMP_ULT: return mkB(un || lt); case CmpInst::FCMP_ULE: return mkB(un || le); case CmpInst::FCMP_UNE: return mkB(!eq);
    default: throw Unsupported{"fcmp"};
    }
  }
  if ((a.k == KFp && std::isnan(a.d)) || (b.k == KFp && std::isnan(b.d))) return VI(p >= CmpInst::FCMP_UNO, 1);
  // ordered: reduce to oeq..ord
  if (p == CmpInst::FCMP_ORD) return VI(1, 1);
  if (p == CmpInst::FCMP_UNO) return VI(0, 1);
  int rel = p & 7;  // bit0 eq, bit1 gt, bit2 lt
  auto infc = [&](int s) { return VI((s > 0 && (rel & 2)) || (s < 0 && (rel & 4)), 1); };
  if (a.k == KFp && std::isinf(a.d)) return infc(a.d > 0 ? 1 : -1);
  if (b.k == KFp && std::isinf(b.d)) return infc(b.d > 0 ? -1 : 1);
  z3::expr x = asReal(a), y = asReal(b);
  switch (rel) {
  case 1: return mkB(x == y); case 2: return mkB(x > y); case 3: return mkB(x >= y); case 4: return mkB(x < y); case 5: return mkB(x <= y); case 6: return mkB(x != y);
  }
  return VI(rel == 7, 1);
}
static Val icmp(CmpInst::Predicate p, const Val &a, const Val &b, unsigned w) {
  if ((a.k == KInt || a.k == KUndef) && (b.k == KInt || b.k == KUndef)) {
    u64 x = a.i, y = b.i; i64 sx = sextw(x, w), sy = sextw(y, w); bool r = false;
    switch (p) {
    case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
    case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break;
    case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; default: break;
    }
    return VI(r, 1);
  }
  if (w == 1 && (a.k == KSymB || b.k == KSymB || a.k == KInt)) {
    z3::expr x = asBool(a), y = asBool(b);
    switch (p) {
    case CmpInst::ICMP_EQ: return mkB(x == y); case CmpInst::ICMP_NE: return mkB(x != y);
    case CmpInst::ICMP_UGT: case CmpInst::ICMP_SLT: return mkB(x && !y); case CmpInst::ICMP_ULT: case CmpInst::ICMP_SGT: return mkB(!x && y);
    default: throw Unsupported{"i1 icmp"};
    }
  }
  z3::expr x = asBV(a), y = asBV(b);
  switch (p) {
  case CmpInst::ICMP_EQ: return mkB(x == y); case CmpInst::ICMP_NE: return mkB(x != y); case CmpInst::ICMP_UGT: return mkB(z3::ugt(x, y)); case CmpInst::ICMP_UGE: return mkB(z3::uge(x, y));
  case CmpInst::ICMP_ULT: return mkB(z3::ult(x, y)); case CmpInst::ICMP_ULE: return mkB(z3::ule(x, y)); case CmpInst::ICMP_SGT: return mkB(x > y); case CmpInst::ICMP_SGE: return mkB(x >= y);
  case CmpInst::ICMP_SLT: return mkB(x < y); case CmpInst::ICMP_SLE: return mkB(x <= y); default: throw Unsupported{"icmp"};
  }
}
// integer part of a real value, forking over feasible integers.  mode: 0 trunc, 1 floor, 2 ceil, 3 round half away
static double realToIntegral(const Val &v, int mode) {
  auto conc = [&](double d) { return mode == 0 ? std::trunc(d) : mode == 1 ? std::floor(d) : mode == 2 ? std::ceil(d) : std::round(d); };
  if (v.k == KFp) return conc(v.d);
  if (v.k != KSymR) throw Unsupported{"real to int"};
  z3::expr e = v.x.e().simplify();
  auto exact = [&](z3::expr e) -> double { double d; if (realToDbl(e, d)) return conc(d);
    z3::expr fl = z3::expr(*C, Z3_mk_real2int(*C, e)).simplify(); int64_t q = 0; fl.is_numeral_i64(q);
    double ap = realApprox(e); // not an integer: exact floor is q
    if (mode == 1) return q; if (mode == 2) return q + 1; if (mode == 0) return ap < 0 ? q + 1 : q;
    z3::expr h = (e - C->real_val((int64_t)q) ).simplify(); bool up = (h > C->real_val(1, 2)).simplify().is_true(); bool eqh = (h == C->real_val(1, 2)).simplify().is_true();
    return (up || (eqh && ap > 0)) ? q + 1 : q; };
  if (e.is_numeral()) return exact(e);
  ensureVarsInModel(*S, e);
  bool ok = false; z3::expr val(*C); if (S->modelOk) val = evalModel(*S, e, ok);
  if (!ok || !(val.is_numeral() || val.is_algebraic())) { if (refreshModel(*S, &e)) { ensureVarsInModel(*S, e); val = evalModel(*S, e, ok); } if (!ok || !(val.is_numeral() || val.is_algebraic())) throw Unsupported{"cannot concretize real"}; }
  double q = val.is_numeral() ? exact(val) : conc(realApprox(val));
  z3::expr k = dblToReal(q), h = C->real_val(1, 2); z3::expr cond(*C);
  switch (mode) {
  case 0: cond = q > 0 ? (e >= k && e < k + 1) : q < 0 ? (e > k - 1 && e <= k) : (e > -1 && e < 1); break;
  case 1: cond = e >= k && e < k + 1; break;
  case 2: cond = e > k - 1 && e <= k; break;
  default: cond = q > 0 ? (e >= k - h && e < k + h) : q < 0 ? (e > k - h && e <= k + h) : (e > -h && e < h); break;
  }
  if (!decide(cond)) throw Refork();
  return q;
}
static int freshCnt = 0;
static bool ratIdentity(const z3::expr &x, const z3::expr &y);
static Val realSqrt(const z3::expr &e0) {
  z3::expr e = normR(e0); e = e.simplify(z3::params(*C));
  if (e.is_numeral()) { double d = realApprox(e); double ex; if (realToDbl(e, ex)) { double s = std::sqrt(ex); if (s * s == ex && std::fma(s, s, -ex) == 0) return VD(s); if (ex < 0) return VD(NAN); } else if (d < 0) return VD(NAN); }
  else if (decide(e < 0)) return VD(NAN);
  z3::params som(*C); som.set("som", true);
  z3::expr key = e.simplify(som);
  varsOf(key);
  unsigned id = Z3_get_ast_id(*C, key);
  auto it = S->sqrtApps.find(id);
  if (it != S->sqrtApps.end()) { Val r; r.k = KSymR; r.w = 64; r.x = it->second.second; return r; }
  { int tries = 0; for (auto &q : S->sqrtApps) { if (++tries > 12) break; if (ratIdentity(e, q.second.first.e())) { Val r; r.k = KSymR; r.w = 64; r.x = q.second.second; S->sqrtApps[id] = {Ex(key), q.second.second}; return r; } } }
  std::string nm = "sqrt_" + std::to_string(freshCnt++);
  z3::expr v = C->real_const(nm.c_str());
  unsigned vi = Z3_get_ast_id(*C, v); keepAlive.push_back(Ex(v)); defTerm.insert(vi); sqrtVars.insert(vi); addDef(*S, v >= 0, vi);
  { RatP r = tryRat(e); if (r && !isConstP(r->n) && r->n.size() + r->d.size() <= 200) { RatP v1 = tryRat(v); addDef(*S, isConstP(r->d) ? v * v == fromP(r->n) : v * v * fromP(r->d) == fromP(r->n), vi); if (v1 && v1->n.size() == 1) sqrtDef[v1->n.begin()->first[0].first] = r; } else addDef(*S, v * v == e, vi); }
  S->sqrtApps[id] = {Ex(key), Ex(v)};
  Val r; r.k = KSymR; r.w = 64; r.x = Ex(v); return r;
}
// strictly monotone uninterpreted function on reals (exp, log, cdf...): adds pairwise axioms
static Val monoUF(const std::string &name, const Val &a, double (*host)(double)) {
  if (a.k == KFp && host) return VD(host(a.d));
  if (a.k == KFp && !std::isfinite(a.d)) throw Unsupported{name + " of non finite"};
  z3::expr x = normR(asReal(a)); for (int k = 0; k < 4; k++) { z3::expr q = x.simplify(); if (z3::eq(q, x)) break; x = q; }   // the form that later simplification keeps
  if (x.is_numeral()) { double d; if (host && realToDbl(x, d)) return VD(host(d)); }
  if (name == "log") { if (decide(x <= 0)) { if (decide(x < 0)) return VD(NAN); return VD(-INFINITY); } }
  for (size_t i = 0, n = 0; i < S->expApps.size() && n < 12; i++) if (S->expNames[i] == name) {
    n++; z3::expr px = S->expApps[i].first.e(), py = S->expApps[i].second.e();
    if (ratIdentity(x, px)) { Val r; r.k = KSymR; r.w = 64; r.x = Ex(py); return r; }
    if (name == "exp" && ratIdentity(-x, px)) return mkR(C->real_val(1) / py);                   // exp(-x) = 1 / exp(x)
    if (name == "erf" && ratIdentity(-x, px)) return mkR(-py);                                   // erf is odd
    if (name == "log" && ratIdentity(x * px, C->real_val(1))) return mkR(-py);                    // log(1/x) = -log(x)
  }
  z3::func_decl f = C->function(name.c_str(), C->real_sort(), C->real_sort());
  z3::expr y = f(x);
  unsigned yi = Z3_get_ast_id(*C, y); keepAlive.push_back(Ex(y)); defTerm.insert(yi);
  for (size_t i = 0; i < S->expApps.size(); i++) if (S->expNames[i] == name) {
    z3::expr px = S->expApps[i].first.e(), py = S->expApps[i].second.e();
    unsigned pi = Z3_get_ast_id(*C, py); addDef(*S, normC((px < x) == (py < y)), yi, pi); addDef(*S, normC((px == x) == (py == y)), yi, pi);
  }
  // inverse pairs
  for (size_t i = 0; i < S->expApps.size(); i++) if ((name == "log" && S->expNames[i] == "exp") || (name == "exp" && S->expNames[i] == "log")) {
    z3::expr px = S->expApps[i].first.e(), py = S->expApps[i].second.e();
    addDef(*S, normC((py == x) == (y == px)), yi, Z3_get_ast_id(*C, py));
  }
  if (name == "exp") { addDef(*S, normC(y > 0), yi); addDef(*S, normC((x == 0) == (y == 1)), yi); addDef(*S, normC((x > 0) == (y > 1)), yi); }
  if (name == "erf") { addDef(*S, normC(y > -1 && y < 1), yi); addDef(*S, normC((x > 0) == (y > 0)), yi); addDef(*S, normC((x == 0) == (y == 0)), yi); }
  if (name == "log") { addDef(*S, normC((x == 1) == (y == 0)), yi); addDef(*S, normC((x > 1) == (y > 0)), yi); }
  S->expApps.push_back({Ex(x), Ex(y)}); S->expNames.push_back(name);
  return mkR(y);
}

// ------------------------------------------------------------------ calls, exceptions
static void enter(Fn *f, std::vector<Val> args, int retdst, bool inv, int normal, int unwind) {
  Frame fr; fr.fn = f; fr.pc = 0; fr.bb = 0; fr.regs.resize(f->nregs); fr.retdst = retdst; fr.isInvoke = inv; fr.normal = normal; fr.unwind = unwind;
  size_t na = f->F->arg_size();
  for (size_t i = 0; i < na && i < args.size(); i++) fr.regs[i] = std::move(args[i]);
  if (S->st.size() > 2000) throw Violation{"stack", "stack overflow (recursion deeper than 2000 frames)"};
  // byval arguments get their own copy
  for (size_t i = 0; i < na; i++) if (f->F->getArg(i)->hasByValAttr()) {
    u64 sz = DL->getTypeAllocSize(f->F->getParamByValType(i)); u64 src = concretize(fr.regs[i]);
    Obj *o = S->mem.alloc(sz, OStack, "byval"); u64 d = Memory::addr(o->id); fr.allocas.push_back(o->id); memCopy(d, src, sz); fr.regs[i] = VP(d);
  }
  fnExecuted.insert(f->F->getName().str());
  S->st.push_back(std::move(fr));
  Fr = &S->st.back();
}
static void jump(int target) {
  Frame &f = *Fr; BB &b = f.fn->bbs[target]; int from = f.bb;
  if (!b.phis.empty()) {
    if (b.phis.size() == 1) { for (auto &in : b.phis[0].in) if (in.first == from) { Val v = ev(in.second); f.regs[b.phis[0].dst] = std::move(v); break; } }
    else {
      std::vector<Val> tmp(b.phis.size());
      for (size_t i = 0; i < b.phis.size(); i++) for (auto &in : b.phis[i].in) if (in.first == from) { tmp[i] = ev(in.second); break; }
      for (size_t i = 0; i < b.phis.size(); i++) f.regs[b.phis[i].dst] = std::move(tmp[i]);
    }
  }
  f.bb = target; f.pc = b.start;
}
static void popFrame() {
  Frame &f = S->st.back();
  for (uint32_t id : f.allocas) { Obj *o = S->mem.wr(id); o->freed = true; o->bytes.clear(); o->bytes.shrink_to_fit(); o->init.clear(); o->ov.clear(); }
  S->st.pop_back();
  Fr = S->st.empty() ? nullptr : &S->st.back();
}
static const GlobalVariable *tiGlobal(u64 a) {
  uint32_t id = a >> ASH; Obj *o = S->mem.get(id); if (!o) return nullptr;
  return M->getGlobalVariable(o->name, true);
}
// is class typeinfo `to` reachable from `from`; returns offset
static bool tiBase(u64 from, u64 to, i64 &off, int depth = 0) {
  if (from == to) { off = 0; return true; }
  if (depth > 20) return false;
  const GlobalVariable *g = tiGlobal(from), *t = tiGlobal(to);
  if (!g || !t) return false;
  if (g->getName() == t->getName()) { off = 0; return true; }
  if (!g->hasInitializer()) return false;
  auto *cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs) return false;
  unsigned n = cs->getNumOperands();
  if (n == 3) { // __si_class_type_info
    Val b = evalConst(cs->getOperand(2)); i64 o2;
    if (tiBase(b.i, to, o2, depth + 1)) { off = o2; return true; }
  } else if (n >= 6) { // __vmi_class_type_info
    for (unsigned i = 4; i + 1 < n; i += 2) { Val b = evalConst(cs->getOperand(i)); i64 fl = (i64)evalConst(cs->getOperand(i + 1)).i; i64 o2; if (tiBase(b.i, to, o2, depth + 1)) { off = (fl >> 8) + o2; return true; } }
  }
  return false;
}
static int tiId(u64 ti) { return ti ? (int)((ti >> ASH) & 0x3fffffff) : 0x3fffffff; }
static std::string demTi(u64 ti) { auto *g = tiGlobal(ti); return g ? g->getName().str() : "?"; }
static void unwindTo(u64 exc, u64 ti) {
  // find a handler or cleanup walking up the frames
  while (!S->st.empty()) {
    Frame &f = S->st.back();
    Inst *call = f.pc > 0 ? &f.fn->code[f.pc - 1] : nullptr;
    if (call && call->op == Instruction::Invoke) {
      int ub = call->bb1; Fr = &f;
      // locate landingpad
      BB &b = f.fn->bbs[ub];
      Inst &lp = f.fn->code[b.start];
      auto *L = dyn_cast<LandingPadInst>(lp.I);
      if (!L) throw Unsupported{"unwind destination without landingpad"};
      int sel = -1; u64 adj = exc;
      for (unsigned i = 0; i < L->getNumClauses() && sel < 0; i++) {
        if (!L->isCatch(i)) continue;
        Constant *cl = L->getClause(i); u64 ct = evalConst(cl).i;
        if (ct == 0) { sel = tiId(0); break; }
        i64 off;
        if (ct == ti || tiBase(ti, ct, off)) { sel = tiId(ct); i64 o2 = 0; if (ct != ti) tiBase(ti, ct, o2); adj = exc + o2;
          auto nm = demTi(ct); if (nm.rfind("_ZTIP", 0) == 0) { Ty pt; pt.t = Ty::I; pt.w = 64; pt.size = 8; adj = concretize(loadTy(exc, pt)); } break; }
      }
      if (sel >= 0 || L->isCleanup()) {
        if (sel < 0) sel = 0;
        S->caught.push_back({exc, adj});
        jump(ub);
        Val r = VAgg({VP(exc), VI(sel, 32)});
        f.regs[lp.dst] = r; f.pc = b.start + 1;
        return;
      }
    }
    if (f.fn->F->doesNotThrow()) throw Violation{"exception", "exception escapes a noexcept function (std::terminate): " + demTi(ti)};
    popFrame();
  }
  throw Violation{"exception", "uncaught exception of type " + demTi(ti)};
}
static u64 adjustedFor(u64 exc) { for (int i = (int)S->caught.size() - 1; i >= 0; i--) if (S->caught[i].first == exc) return S->caught[i].second; return exc; }

static void recordViolation(const std::string &kind, const std::string &msg, const z3::expr *extra);
static void callFunction(Inst &x, const Function *F, std::vector<Val> args, bool inv);
#include "intrinsics.inc"

static void callFunction(Inst &x, const Function *F, std::vector<Val> args, bool inv) {
  if (!F->isDeclaration()) { enter(getFn(F), std::move(args), x.dst, inv, x.bb0, x.bb1); return; }
  throw Unsupported{"call to external function " + F->getName().str()};
}
static void recordViolation(const std::string &kind, const std::string &msg, const z3::expr *extra) {
  std::string loc = curLoc(); std::string key = kind + "|" + msg + "|" + loc;
  u64 n = violSeen[key]++;
  if (n >= (u64)optMaxViol || viols.size() > 60) return;
  // model for the whole path; prefer small integer valued reals so that the native replay is exact
  State tmp = *S; if (extra) addPc(tmp, *extra);
  State *old = S;
  std::unordered_map<unsigned, Ex> best; bool have = false;
  std::vector<z3::expr> base; if (tmp.expApps.empty()) closure(tmp, nullptr, true, base); else for (auto &p : tmp.pc) base.push_back(p.e());
  for (int attempt = 0; attempt < 3 && !have; attempt++) {
    std::vector<z3::expr> cs = base;
    bool any = false;
    if (attempt < 2) for (auto &in : tmp.inputs) if (in.e && in.e.e().get_sort().is_real()) {
      z3::expr k = C->int_const(("ik_" + in.name + std::to_string(Z3_get_ast_id(*C, in.e.a))).c_str());
      int den = attempt == 0 ? 1 : 8;
      cs.push_back(in.e.e() * den == z3::to_real(k)); cs.push_back(k >= -64 * den && k <= 64 * den); any = true;
    }
    if (attempt < 2 && !any) continue;
    try {
      // a direct, non sliced query
      z3::solver sv(*C); z3::params p(*C); p.set("timeout", attempt < 2 ? 3000u : optQT); sv.set(p);
      for (auto &c : cs) sv.add(c);
      double t0 = now(); nQueries++; auto r = sv.check(); solverTime += now() - t0;
      if (r == z3::sat) { nSat++; have = true; z3::model md = sv.get_model(); for (auto &in : tmp.inputs) if (in.e) { auto v = md.eval(in.e.e(), true); best[Z3_get_ast_id(*C, in.e.a)] = Ex(v); } }
      else if (r == z3::unsat) { nUnsat++; if (attempt == 2) { S = old; violSeen[key]--; return; } }
      else nUnknown++;
    } catch (z3::exception &) {}
  }
  Viol v; v.kind = kind; v.msg = msg; v.loc = loc; v.stack = stackTrace();
  if (!have) {
    if (S->modelOk && !extra) { for (auto &in : tmp.inputs) if (in.e) { ensureVarsInModel(*S, in.e.e()); auto it = S->model.find(Z3_get_ast_id(*C, in.e.a)); if (it != S->model.end()) best[it->first] = it->second; } }
    else { inconcl["violation candidate without model: " + msg]++; S = old; return; }
  }
  for (auto &in : tmp.inputs) {
    std::string val = "0";
    if (in.e) {
      auto it = best.find(Z3_get_ast_id(*C, in.e.a));
      if (it != best.end()) {
        z3::expr e = it->second.e();
        if (e.is_bv()) { uint64_t u = 0; e.is_numeral_u64(u); unsigned w = e.get_sort().bv_size(); val = std::to_string((long long)sextw(u, w)); }
        else if (e.is_bool()) val = e.is_true() ? "1" : "0";
        else if (e.is_real() || e.is_algebraic()) { char b[64]; snprintf(b, 64, "%.17g", realApprox(e)); val = b; }
        else if (e.is_fpa()) { z3::expr bv = z3::expr(*C, Z3_mk_fpa_to_ieee_bv(*C, e)).simplify(); uint64_t u = 0; bv.is_numeral_u64(u); double d; memcpy(&d, &u, 8); if (e.decl().decl_kind() == Z3_OP_FPA_NAN) d = NAN; char b[64]; snprintf(b, 64, "%.17g", d); val = b; }
      }
    }
    v.inputs.push_back({in.name, val}); v.kinds.push_back(in.kind);
  }
  viols.push_back(v);
  S = old;
}

// ------------------------------------------------------------------ main step
static void setReg(int d, Val v) { if (d >= 0) Fr->regs[d] = std::move(v); }
static Val selectVal(const z3::expr &c, const Val &a, const Val &b, const Ty &ty) {
  if (ty.t == Ty::A) { if (a.k == KAgg && b.k == KAgg) { bool d = decide(c); return d ? a : b; } }
  if (ty.t == Ty::I) {
    if (a.k == KInt && b.k == KInt && a.i == b.i) return a;
    if (ty.ty->isPointerTy()) return decide(c) ? a : b;
    if (ty.w == 1) return mkB(z3::ite(c, asBool(a), asBool(b)));
    if (a.k == KSymR || b.k == KSymR) return decide(c) ? a : b;
    return mkI(z3::ite(c, asBV(a), asBV(b)), ty.w);
  }
  if (a.k == KSymF || b.k == KSymF) return mkF(z3::ite(c, asFpa(a), asFpa(b)));
  if (a.k == KFp && b.k == KFp && memcmp(&a.d, &b.d, 8) == 0) return a;
  bool nfa = a.k == KFp && !std::isfinite(a.d), nfb = b.k == KFp && !std::isfinite(b.d);
  if (nfa || nfb) return decide(c) ? a : b;
  if (ty.w != 64) return decide(c) ? a : b;
  return mkR(z3::ite(c, asReal(a), asReal(b)));
}
static Val castVal(unsigned op, const Val &a, const Ty &from, const Ty &to) {
  switch (op) {
  case Instruction::Trunc:
    if (a.k == KInt) return VI(a.i, to.w);
    if (a.k == KSymB) return a;
    if (to.w == 1) return mkB(asBV(a).extract(0, 0) == C->bv_val(1, 1));
    return mkI(asBV(a).extract(to.w - 1, 0), to.w);
  case Instruction::ZExt:
    if (a.k == KInt && to.w <= 64) return VI(a.i, to.w);
    if (a.k == KSymB) return mkI(z3::ite(a.x.e(), C->bv_val(1, to.w), C->bv_val(0, to.w)), to.w);
    return mkI(z3::zext(asBV(a), to.w - from.w), to.w);
  case Instruction::SExt:
    if (a.k == KInt && to.w <= 64) return VI((u64)sextw(a.i, from.w), to.w);
    if (a.k == KSymB) return mkI(z3::ite(a.x.e(), C->bv_val(-1, to.w), C->bv_val(0, to.w)), to.w);
    return mkI(z3::sext(asBV(a), to.w - from.w), to.w);
  case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
    if (a.k == KInt) return VI(a.i, to.w);
    if (a.k == KSymI && a.w == to.w) return a;
    throw Unsupported{"ptr cast width"};
  case Instruction::BitCast:
    if (from.t == to.t) return a;
    if (from.t == Ty::F && to.t == Ty::I) { if (a.k == KFp) { u64 b = 0; if (from.w == 32) { float f = (float)a.d; memcpy(&b, &f, 4); } else memcpy(&b, &a.d, 8); return VI(b, to.w); } if (a.k == KSymF) return mkI(asBV(a), 64); return a; }
    if (from.t == Ty::I && to.t == Ty::F) { if (a.k == KInt) { if (to.w == 32) { float f; memcpy(&f, &a.i, 4); return VD(f, 32); } double d; memcpy(&d, &a.i, 8); return VD(d); } if (a.k == KSymR) return a; return mkF(z3::expr(*C, Z3_mk_fpa_to_fp_bv(*C, a.x.e(), C->fpa_sort<64>()))); }
    throw Unsupported{"bitcast"};
  case Instruction::SIToFP: if (a.k == KSymI) { u64 c = concretize(a); return VD((double)sextw(c, from.w), to.w); } if (a.k == KSymB) { u64 c = concretize(a); return VD(c ? -1.0 : 0.0, to.w); } { if (optExact && (i64)(double)sextw(a.i, from.w) != sextw(a.i, from.w)) return mkR(C->real_val((int64_t)sextw(a.i, from.w))); } return VD((double)sextw(a.i, from.w), to.w);
  case Instruction::UIToFP: { u64 c = concretize(a); return VD((double)c, to.w); }
  case Instruction::FPToSI: case Instruction::FPToUI: {
    if (a.k == KSymF) {
      z3::expr e = a.x.e(); z3::expr bv(*C, op == Instruction::FPToSI ? Z3_mk_fpa_to_sbv(*C, Z3_mk_fpa_rtz(*C), e, to.w) : Z3_mk_fpa_to_ubv(*C, Z3_mk_fpa_rtz(*C), e, to.w)); return mkI(bv, to.w); }
    double d = realToIntegral(a, 0);
    if (std::isnan(d)) { return VI(to.w >= 64 ? 0x8000000000000000ull : (1ull << (to.w - 1)), to.w); }
    if (op == Instruction::FPToSI) { if (to.w == 32 && (d > 2147483647.0 || d < -2147483648.0)) return VI(0x80000000u, 32); return VI((u64)(i64)d, to.w); }
    return VI(d < 0 ? (u64)(i64)d : (u64)d, to.w);
  }
  case Instruction::FPExt: { Val r = a; r.w = 64; return r; }
  case Instruction::FPTrunc: if (to.w == 32 && a.k == KFp) return VD(a.d, 32); if (to.w == 64) return a; { Val r = a; return r; }
  }
  throw Unsupported{"cast"};
}
static void step() {
  Inst &x = Fr->fn->code[Fr->pc];
  instrStartPc = Fr->pc;
  Fr->pc++;
  totalSteps++;
  if (++S->steps > optPathSteps) throw Unsupported{"step bound per path exceeded (possible non-termination)"};
  switch (x.op) {
  case Instruction::Ret: {
    Val r; if (!x.ops.empty()) r = ev(x.ops[0]);
    int dst = Fr->retdst; bool inv = Fr->isInvoke; int normal = Fr->normal;
    popFrame();
    if (S->st.empty()) throw PathEnd();
    if (dst >= 0) Fr->regs[dst] = std::move(r);
    if (inv) jump(normal);
    return;
  }
  case Instruction::Br: {
    if (x.bb1 < 0) { jump(x.bb0); return; }
    const Val &c = ev(x.ops[0]);
    bool t; if (c.k == KInt || c.k == KUndef) t = c.i & 1; else t = decide(asBool(c));
    jump(t ? x.bb0 : x.bb1); return;
  }
  case Instruction::Switch: {
    Val c = ev(x.ops[0]);
    if (c.k != KInt) {
      z3::expr e = c.k == KSymB ? asBV(c) : c.x.e(); unsigned w = c.w;
      for (auto &cs : x.cases) if (decide(e == C->bv_val((uint64_t)cs.first, w))) { jump(cs.second); return; }
      jump(x.bb0); return;
    }
    for (auto &cs : x.cases) if (maskw(cs.first, c.w) == c.i) { jump(cs.second); return; }
    jump(x.bb0); return;
  }
  case Instruction::Unreachable: throw Violation{"ub", "unreachable code executed"};
  case Instruction::Alloca: {
    u64 n = concretize(ev(x.ops[0])) * (u64)x.gepConst;
    std::string nm = x.I->hasName() ? x.I->getName().str() : "local"; 
    Obj *o = S->mem.alloc(n, OStack, nm + "@" + Fr->fn->F->getName().str()); if (!o) throw Unsupported{"huge alloca"};
    Fr->allocas.push_back(o->id); setReg(x.dst, VP(Memory::addr(o->id))); return;
  }
  case Instruction::Load: { Val v = loadPtr(ev(x.ops[0]), x.ty); if (x.ty.t == Ty::I && v.k == KInt && v.w != x.ty.w) v = VI(v.i, x.ty.w); setReg(x.dst, std::move(v)); return; }
  case Instruction::Store: { u64 a = addrOf(ev(x.ops[1]), x.opty[0].size, true); storeTy(a, x.opty[0], ev(x.ops[0])); return; }
  case Instruction::GetElementPtr: {
    Val b = ev(x.ops[0]);
    if (b.k == KAgg) throw Unsupported{"vector gep"};
    i64 c = x.gepConst; bool sym = b.k != KInt;
    for (auto &g : x.gepIdx) if (ev(g.first).k != KInt) sym = true;
    if (!sym) { for (auto &g : x.gepIdx) { const Val &i = ev(g.first); c += sextw(i.i, i.w) * g.second; } setReg(x.dst, VP(b.i + c)); return; }
    if (b.k == KUndef) { b = VP(0); }
    uint32_t prov = b.k == KInt ? (uint32_t)(b.i >> ASH) : b.prov;
    z3::expr e = asBV(b) + C->bv_val((int64_t)c, 64);
    for (auto &g : x.gepIdx) { const Val &i = ev(g.first); z3::expr ie = asBV(i); if (i.w < 64) ie = z3::sext(ie, 64 - i.w); e = e + ie * C->bv_val((int64_t)g.second, 64); }
    Val r = mkI(e, 64); r.prov = prov; setReg(x.dst, r); return;
  }
  case Instruction::ICmp: {
    auto *ci = cast<ICmpInst>(x.I); const Val &a = ev(x.ops[0]), &b = ev(x.ops[1]);
    if (x.opty[0].t == Ty::A) throw Unsupported{"vector icmp"};
    setReg(x.dst, icmp(ci->getPredicate(), a, b, x.opty[0].w)); return;
  }
  case Instruction::FCmp: { setReg(x.dst, fcmp(cast<FCmpInst>(x.I)->getPredicate(), ev(x.ops[0]), ev(x.ops[1]))); return; }
  case Instruction::Select: {
    const Val &c = ev(x.ops[0]);
    if (c.k == KInt || c.k == KUndef) { Val v = (c.i & 1) ? ev(x.ops[1]) : ev(x.ops[2]); setReg(x.dst, std::move(v)); return; }
    setReg(x.dst, selectVal(asBool(c), ev(x.ops[1]), ev(x.ops[2]), x.ty)); return;
  }
  case Instruction::FNeg: { const Val &a = ev(x.ops[0]); if (a.k == KSymR) setReg(x.dst, mkR((-a.x.e()))); else if (a.k == KSymF) setReg(x.dst, mkF(-a.x.e())); else setReg(x.dst, VD(-a.d, x.ty.w)); return; }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
    if (x.ty.t == Ty::A) { const Val &a = ev(x.ops[0]), &b = ev(x.ops[1]); std::vector<Val> v; for (size_t i = 0; i < a.agg->size(); i++) v.push_back(binFp(x.op, (*a.agg)[i], (*b.agg)[i], 64)); setReg(x.dst, VAgg(v)); return; }
    setReg(x.dst, binFp(x.op, ev(x.ops[0]), ev(x.ops[1]), x.ty.w)); return; }
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
  case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
    if (x.ty.t == Ty::A) { const Val &a = ev(x.ops[0]), &b = ev(x.ops[1]); unsigned w = tyOf(cast<VectorType>(x.ty.ty)->getElementType()).w; std::vector<Val> v; for (size_t i = 0; i < a.agg->size(); i++) v.push_back(binInt(x.op, (*a.agg)[i], (*b.agg)[i], w, x.I)); setReg(x.dst, VAgg(v)); return; }
    setReg(x.dst, binInt(x.op, ev(x.ops[0]), ev(x.ops[1]), x.ty.w, x.I)); return;
  }
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
  case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: {
    if (x.ty.t == Ty::A || x.opty[0].t == Ty::A) {
      if (x.op == Instruction::BitCast) { setReg(x.dst, ev(x.ops[0])); return; }
      const Val &a = ev(x.ops[0]); Ty et = tyOf(cast<VectorType>(x.opty[0].ty)->getElementType()), tt = tyOf(cast<VectorType>(x.ty.ty)->getElementType()); std::vector<Val> v; for (auto &q : *a.agg) v.push_back(castVal(x.op, q, et, tt)); setReg(x.dst, VAgg(v)); return; }
    setReg(x.dst, castVal(x.op, ev(x.ops[0]), x.opty[0], x.ty)); return;
  }
  case Instruction::Freeze: { Val v = ev(x.ops[0]); setReg(x.dst, v); return; }
  case Instruction::ExtractValue: { Val v = ev(x.ops[0]); for (unsigned i : x.idx) { if (v.k != KAgg) { v = Val(); break; } Val t = (*v.agg)[i]; v = t; } setReg(x.dst, v); return; }
  case Instruction::InsertValue: {
    Val v = ev(x.ops[0]); if (v.k != KAgg) v = zeroOf(x.ty.ty);
    std::function<Val(const Val &, size_t)> ins = [&](const Val &b, size_t d) -> Val { if (d == x.idx.size()) return ev(x.ops[1]); std::vector<Val> c = *b.agg; c[x.idx[d]] = ins(c[x.idx[d]], d + 1); return VAgg(c); };
    setReg(x.dst, ins(v, 0)); return;
  }
  case Instruction::ExtractElement: { Val v = ev(x.ops[0]); u64 i = concretize(ev(x.ops[1])); setReg(x.dst, (*v.agg)[i]); return; }
  case Instruction::InsertElement: { Val v = ev(x.ops[0]); if (v.k != KAgg) v = zeroOf(x.ty.ty); u64 i = concretize(ev(x.ops[2])); std::vector<Val> c = *v.agg; c[i] = ev(x.ops[1]); setReg(x.dst, VAgg(c)); return; }
  case Instruction::ShuffleVector: { const Val &a = ev(x.ops[0]), &b = ev(x.ops[1]); std::vector<Val> v; size_t n = a.agg->size(); for (unsigned m : x.idx) { if ((int)m < 0) v.push_back((*a.agg)[0]); else v.push_back(m < n ? (*a.agg)[m] : (*b.agg)[m - n]); } setReg(x.dst, VAgg(v)); return; }
  case Instruction::Call: case Instruction::Invoke: {
    bool inv = x.op == Instruction::Invoke;
    const Function *F = x.callee; size_t na = x.opty.size();
    std::vector<Val> args; args.reserve(na); for (size_t i = 0; i < na; i++) args.push_back(ev(x.ops[i]));
    int sp = x.special;
    if (!F) {
      if (cast<CallBase>(x.I)->isInlineAsm()) { setReg(x.dst, VI(0, 64)); if (inv) jump(x.bb0); return; }
      u64 a = concretize(ev(x.ops[na]));
      if (a < FNBASE || (a - FNBASE) / 16 >= fnByIdx.size()) throw Violation{"memory", "call through invalid function pointer " + hex(a)};
      F = fnByIdx[(a - FNBASE) / 16]; sp = specialId(F);
    }
    if (sp >= 0) {
      Val r; int depth = S->st.size(); Frame *before = Fr; (void)before;
      bool ret = doSpecial(sp, x, F, args, r, inv);
      if (!ret) return;  // control transferred (exception or call pushed)
      (void)depth;
      if (x.dst >= 0) setReg(x.dst, r);
      if (inv) jump(x.bb0);
      return;
    }
    callFunction(x, F, std::move(args), inv);
    return;
  }
  case Instruction::LandingPad: throw Unsupported{"fallthrough into landingpad"};
  case Instruction::Resume: {
    Val v = ev(x.ops[0]); u64 exc = (*v.agg)[0].i; u64 ti = S->excTi[exc];
    popFrame(); unwindTo(exc, ti); return;
  }
  case Instruction::Fence: return;
  case Instruction::AtomicRMW: {
    auto *a = cast<AtomicRMWInst>(x.I); Val p = ev(x.ops[0]); Ty t = x.ty; u64 ad = addrOf(p, t.size, true); Val old = loadTy(ad, t); Val n;
    switch (a->getOperation()) { case AtomicRMWInst::Add: n = binInt(Instruction::Add, old, ev(x.ops[1]), t.w, x.I); break; case AtomicRMWInst::Sub: n = binInt(Instruction::Sub, old, ev(x.ops[1]), t.w, x.I); break; case AtomicRMWInst::Xchg: n = ev(x.ops[1]); break; default: throw Unsupported{"atomicrmw"}; }
    storeTy(ad, t, n); setReg(x.dst, old); return;
  }
  case Instruction::AtomicCmpXchg: {
    Ty t = x.opty[1]; u64 ad = addrOf(ev(x.ops[0]), t.size, true); Val old = loadTy(ad, t); Val eq = icmp(CmpInst::ICMP_EQ, old, ev(x.ops[1]), t.w); bool ok = eq.k == KInt ? eq.i : decide(asBool(eq)); if (ok) storeTy(ad, t, ev(x.ops[2])); setReg(x.dst, VAgg({old, VI(ok, 1)})); return;
  }
  }
  throw Unsupported{std::string("instruction ") + x.I->getOpcodeName()};
}

static void runState(StateP s) {
  Sp = s; S = s.get(); Fr = &S->st.back();
  try {
    while (true) {
      if ((totalSteps & 1023) == 0 && now() - tStart > optTimeout) { inconcl["time budget exhausted"]++; work.clear(); return; }
      try { step(); }
      catch (Refork &) { if (!S->st.empty()) { Fr = &S->st.back(); Fr->pc = instrStartPc; } inconcl["refork"]++; if (inconcl["refork"] > 1000) return; }
    }
  } catch (PathEnd &) { nPaths++; }
  catch (Violation &v) { nPaths++; recordViolation(v.kind, v.msg, nullptr); }
  catch (Unsupported &u) { nPaths++; inconcl["unsupported: " + u.msg + " at " + curLoc()]++; if (optVerbose) std::cerr << "UNSUPPORTED " << u.msg << "\n" << stackTrace(); }
  catch (z3::exception &e) { nPaths++; inconcl[std::string("z3: ") + e.msg() + " at " + curLoc()]++; if (optVerbose) std::cerr << "Z3EXC " << e.msg() << "\n" << stackTrace(); }
}
static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }

static void initGlobals(State &s) {
  S = &s;
  for (auto &F : *M) { gaddr[&F] = FNBASE + fnByIdx.size() * 16; fnByIdx.push_back(&F); }
  for (auto &G : M->globals()) {
    u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8;
    Obj *o = s.mem.alloc(sz ? sz : 1, G.hasInitializer() ? OGlobal : OExtern, G.getName().str());
    gaddr[&G] = Memory::addr(o->id);
  }
  for (auto &G : M->globals()) if (G.hasInitializer()) {
    u64 a = gaddr[&G]; Obj *o = s.mem.wr(a >> ASH); std::fill(o->init.begin(), o->init.end(), 1);
    if (isa<ConstantAggregateZero>(G.getInitializer())) { o->ro = false; continue; }
    try { Val v = evalConst(G.getInitializer()); storeTy(a, tyOf(G.getValueType()), v); } catch (Unsupported &u) { std::cerr << "global " << G.getName().str() << ": " << u.msg << "\n"; s.mem.wr(a >> ASH)->kind = OExtern; }
    std::fill(o->init.begin(), o->init.end(), 1);
    if (G.isConstant()) s.mem.wr(a >> ASH)->ro = true;
  }
}
int main(int argc, char **argv) {
  std::string file, entry, out;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--timeout") optTimeout = stod(nx()); else if (a == "--qtimeout") optQT = stoi(nx()); else if (a == "--quick") optQuick = stoi(nx()); else if (a == "--feas") optFeas = stoi(nx());
    else if (a == "--path-steps") optPathSteps = stoull(nx()); else if (a == "--no-exact") optExact = false; else if (a == "--no-rat") optRat = false; else if (a == "-v") optVerbose = true; else if (a == "--max-viol") optMaxViol = stoi(nx()); else file = a;
  }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  z3::context ctx; C = &ctx; C->set_rounding_mode(z3::RNE);
  SMDiagnostic err; M = parseIRFile(file, err, LC);
  if (!M) { err.print("symx", errs()); return 3; }
  DataLayout dl(M.get()); DL = &dl;
  tStart = now();
  auto s0 = std::make_shared<State>();
  initGlobals(*s0);
  Function *E = M->getFunction(entry);
  if (!E || E->isDeclaration()) { std::cerr << "no entry " << entry << "\n"; return 3; }
  // static constructors first (concrete), then the entry
  std::vector<Function *> ctors;
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors", true)) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<u64, Function *>> v;
    for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(o); if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
    std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &p : v) ctors.push_back(p.second);
  }
  S = s0.get(); Sp = s0;
  for (auto *f : ctors) {
    try { enter(getFn(f), {}, -1, false, -1, -1); Fr = &S->st.back(); while (true) step(); }
    catch (PathEnd &) { S->st.clear(); }
    catch (Unsupported &u) { if (optVerbose) std::cerr << "ctor " << f->getName().str() << ": " << u.msg << "\n"; S->st.clear(); }
    catch (Violation &v) { std::cerr << "ctor violation " << v.msg << "\n" << stackTrace(); S->st.clear(); }
    catch (Refork &) { S->st.clear(); }
  }
  fnExecuted.clear(); totalSteps = 0; s0->steps = 0;
  enter(getFn(E), {}, -1, false, -1, -1);
  work.push_back(s0); s0.reset(); Sp.reset();
  while (!work.empty()) {
    StateP s = work.back(); work.pop_back();
    runState(s);
    if (nPaths > optMaxPaths) { inconcl["path limit"]++; break; }
    if (now() - tStart > optTimeout) { inconcl["time budget exhausted"]++; break; }
  }
  double wall = now() - tStart;
  std::ostringstream j;
  j << "{\"entry\":\"" << entry << "\",\"paths\":" << nPaths << ",\"forks\":" << nForks << ",\"instructions\":" << totalSteps << ",\"queries\":" << nQueries << ",\"sat\":" << nSat << ",\"unsat\":" << nUnsat << ",\"unknown\":" << nUnknown
    << ",\"asserts\":" << nAsserts << ",\"asserts_symbolic\":" << nAssertSym << ",\"model_hits\":" << nModelHits << ",\"normal_form\":" << nTriv << ",\"solver_s\":" << solverTime << ",\"wall_s\":" << wall << ",\n\"assert_sites\":{";
  bool f1 = true; for (auto &p : assertSeen) { j << (f1 ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; f1 = false; }
  j << "},\n\"reached\":{"; f1 = true; for (auto &p : reached) { j << (f1 ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; f1 = false; }
  j << "},\n\"functions\":["; f1 = true; for (auto &p : fnExecuted) { j << (f1 ? "" : ",") << "\"" << p << "\""; f1 = false; }
  j << "],\n\"inconclusive\":{"; f1 = true; for (auto &p : inconcl) { if (p.first == "feasibility unknown (explored anyway)" ) continue; j << (f1 ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; f1 = false; }
  j << "},\n\"feasibility_unknown\":" << inconcl["feasibility unknown (explored anyway)"] << ",\n\"violations\":["; f1 = true;
  for (auto &v : viols) {
    j << (f1 ? "" : ",\n") << "{\"kind\":\"" << v.kind << "\",\"msg\":\"" << jesc(v.msg) << "\",\"loc\":\"" << jesc(v.loc) << "\",\"count\":" << violSeen[v.kind + "|" + v.msg + "|" + v.loc] << ",\"stack\":\"" << jesc(v.stack) << "\",\"inputs\":["; f1 = false;
    bool f2 = true; for (size_t i = 0; i < v.inputs.size(); i++) { j << (f2 ? "" : ",") << "[\"" << jesc(v.inputs[i].first) << "\",\"" << v.kinds[i] << "\",\"" << v.inputs[i].second << "\"]"; f2 = false; }
    j << "]}";
  }
  j << "]}\n";
  if (out.empty()) std::cout << j.str(); else { std::ofstream o(out); o << j.str(); }
  fflush(stdout); std::cout.flush();
  _exit(0);
}
