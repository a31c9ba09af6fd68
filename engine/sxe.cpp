// sxe: a small symbolic executor for LLVM IR.
//
// Runs the entry function of a bitcode module.  Integers are bit-vectors,
// doubles are mathematical reals when symbolic (exactness of concrete
// floating-point arithmetic is tracked; an inexact concrete operation becomes an
// exact rational).  Branches on symbolic conditions fork; Z3 decides
// feasibility and every assertion.  All paths are explored unless a budget is hit,
// which is reported.
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/SmallString.h>
#include <functional>
#include <iostream>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <unistd.h>
#include <z3++.h>

#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <deque>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <atomic>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace llvm;
typedef unsigned __int128 u128;
typedef __int128 i128;
using std::string;
using std::vector;

static z3::context *C;
static const DataLayout *DL;

static double now()
{
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- options / stats
struct Opts
{
  double maxTime = 600;
  unsigned solverMs = 20000;
  uint64_t maxPaths = 1000000;
  uint64_t maxSteps = 400000000ull;
  uint64_t maxFails = 6;
  bool trace = false;
} O;

struct Failure
{
  string kind, msg, where;
  std::map<string, string> model;
};
static vector<Failure> failures;
static std::set<string> failKeys;
static std::map<string, std::map<string, string>> reached;
static std::map<string, uint64_t> incomplete;
static std::map<string, uint64_t> assertCount, assertSolver;
static std::set<string> funcsSeen;
static uint64_t nPaths, nForks, nQueries, nSteps, nCuts, nSolverAsserts;
static double tSolver, tStart;

struct Unsupported
{
  string what;
};
struct PathEnd
{
  string why;
};
struct ForkRestart
{};

// ---------------------------------------------------------------- values
struct Val
{
  enum K : uint8_t { Undef, Int, Sym, Fp, Agg } k = Undef;
  // Int: concrete integer/pointer of width w. Sym: z3 expr (BV, or Real if isReal). Fp: concrete
  bool isReal = false;
  unsigned w = 0;// bits (int) or 32/64 for FP
  u128 i = 0;
  double d = 0;
  std::shared_ptr<z3::expr> e;
  std::shared_ptr<vector<Val>> agg;

  static Val mkInt(u128 v, unsigned w)
  {
    Val r;
    r.k = Int;
    r.w = w;
    r.i = w >= 128 ? v : (v & ((((u128)1) << w) - 1));
    return r;
  }
  static Val mkFp(double v, unsigned w = 64)
  {
    Val r;
    r.k = Fp;
    r.w = w;
    r.d = w == 32 ? (double)(float)v : v;
    return r;
  }
  static Val mkBV(const z3::expr &e)
  {
    Val r;
    if (e.is_numeral()) {
      unsigned w = e.get_sort().bv_size();
      if (w <= 64) return mkInt(e.get_numeral_uint64(), w);
    }
    r.k = Sym;
    r.w = e.get_sort().bv_size();
    r.e = std::make_shared<z3::expr>(e);
    return r;
  }
  static Val mkReal(const z3::expr &e, unsigned w = 64)
  {
    Val r;
    r.k = Sym;
    r.isReal = true;
    r.w = w;
    r.e = std::make_shared<z3::expr>(e);
    return r;
  }
  static Val mkAgg(vector<Val> v)
  {
    Val r;
    r.k = Agg;
    r.agg = std::make_shared<vector<Val>>(std::move(v));
    return r;
  }
  bool isFloat() const { return k == Fp || (k == Sym && isReal); }
  bool conc() const { return k == Int || k == Fp; }
};

static i128 sext(u128 v, unsigned w)
{
  if (w >= 128) return (i128)v;
  u128 m = ((u128)1) << (w - 1);
  v &= (((u128)1) << w) - 1;
  return (i128)((v ^ m) - m);
}

static z3::expr bvNum(u128 v, unsigned w)
{
  if (w <= 64) return C->bv_val((uint64_t)v, w);
  z3::expr hi = C->bv_val((uint64_t)(v >> 64), w - 64);
  z3::expr lo = C->bv_val((uint64_t)v, 64);
  return z3::concat(hi, lo);
}
static z3::expr toBV(const Val &v)
{
  if (v.k == Val::Int) return bvNum(v.i, v.w);
  if (v.k == Val::Sym && !v.isReal) return *v.e;
  if (v.k == Val::Undef) throw Unsupported{ "undef integer used" };
  throw Unsupported{ "float bits used as integer" };
}
static z3::expr ratOfDouble(double d)
{
  if (std::isnan(d) || std::isinf(d)) throw Unsupported{ "inf/nan mixed with symbolic real" };
  if (d == 0) return C->real_val(0);
  int ex;
  double m = std::frexp(d, &ex);
  int64_t mi = (int64_t)std::ldexp(m, 53);
  ex -= 53;
  while ((mi & 1) == 0) {
    mi >>= 1;
    ++ex;
  }
  auto pow2 = [](int n) {
    // decimal string of 2^n
    APInt a(n + 2, 1);
    a = a.shl(n);
    SmallString<400> s;
    a.toString(s, 10, false);
    return string(s.c_str());
  };
  if (ex >= 0) {
    APInt a(ex + 66, (uint64_t)std::llabs(mi));
    a = a.shl(ex);
    SmallString<400> s;
    a.toString(s, 10, false);
    return C->real_val(((mi < 0 ? "-" : "") + string(s.c_str())).c_str());
  }
  return C->real_val((std::to_string(mi) + "/" + pow2(-ex)).c_str());
}
static z3::expr toReal(const Val &v)
{
  if (v.k == Val::Fp) return ratOfDouble(v.d);
  if (v.k == Val::Sym && v.isReal) return *v.e;
  if (v.k == Val::Undef) throw Unsupported{ "undef float used" };
  throw Unsupported{ "integer bits used as float" };
}
static Val realVal(const z3::expr &e, unsigned w) { return Val::mkReal(e, w); }

// ---------------------------------------------------------------- memory
struct Obj
{
  uint64_t size = 0;
  string name;
  bool isConst = false;
  bool freed = false;
  vector<uint8_t> b;// concrete bytes
  vector<uint8_t> tag;// 0 undef 1 concrete 2 symbolic
  std::map<uint32_t, std::pair<Val, uint32_t>> sym;
};
typedef std::shared_ptr<Obj> ObjP;

struct Frame
{
  const Function *f = nullptr;
  const BasicBlock *bb = nullptr, *prev = nullptr;
  BasicBlock::const_iterator it;
  std::shared_ptr<vector<Val>> regs;
  vector<uint64_t> allocas;
  const CallBase *callSite = nullptr;
  vector<Val> varargs;
};

struct State
{
  vector<Frame> st;
  std::map<uint64_t, ObjP> mem;// base -> obj (heap/stack, and written globals)
  vector<z3::expr> pc;
  std::map<string, unsigned> symCount;
  std::shared_ptr<z3::model> model;// satisfies pc (if set)
  uint64_t next = 0x10000000ull;
  vector<std::pair<string, z3::expr>> syms;// declared inputs (in order)
  std::set<unsigned> axioms;// indices of trig/sqrt definitions already in pc
  uint64_t steps = 0;
  bool allowDiv0 = false;
  uint64_t exPtr = 0;// exception in flight
  string exType;
  vector<std::pair<uint64_t, string>> caught;
};
struct Unwound
{
};

static std::map<uint64_t, ObjP> gmem;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::map<uint64_t, const Function *> faddr;
static std::map<string, uint64_t> extGlobals;

struct FInfo
{
  std::unordered_map<const Value *, unsigned> slot;
  unsigned n = 0;
  bool isTarget = false;
};
static std::unordered_map<const Function *, FInfo> finfo;
static FInfo &getInfo(const Function *f)
{
  auto it = finfo.find(f);
  if (it != finfo.end()) return it->second;
  FInfo &fi = finfo[f];
  for (auto &a : f->args()) fi.slot[&a] = fi.n++;
  for (auto &bb : *f)
    for (auto &i : bb)
      if (!i.getType()->isVoidTy()) fi.slot[&i] = fi.n++;
  string dn = llvm::demangle(f->getName().str());
  funcsSeen.insert(dn);
  return fi;
}

// ---------------------------------------------------------------- solver
struct Solver
{
  z3::solver s;
  vector<z3::expr> stack;
  Solver() : s(*C)
  {
    z3::params p(*C);
    p.set("timeout", O.solverMs);
    s.set(p);
  }
  void sync(const vector<z3::expr> &pc)
  {
    size_t k = 0;
    while (k < pc.size() && k < stack.size() && z3::eq(pc[k], stack[k])) ++k;
    if (k < stack.size()) {
      s.pop((unsigned)(stack.size() - k));
      stack.resize(k, z3::expr(*C));
    }
    for (; k < pc.size(); ++k) {
      s.push();
      s.add(pc[k]);
      stack.push_back(pc[k]);
    }
  }
};
static Solver *SV;

static void symsOf(const z3::expr &e, std::unordered_set<unsigned> &seen, std::unordered_set<unsigned> &vars)
{
  vector<z3::expr> todo{ e };
  while (!todo.empty()) {
    z3::expr x = todo.back();
    todo.pop_back();
    if (!seen.insert(x.id()).second) continue;
    if (x.is_app()) {
      unsigned n = x.num_args();
      if (n == 0 && x.decl().decl_kind() == Z3_OP_UNINTERPRETED) vars.insert(x.id());
      for (unsigned i = 0; i < n; ++i) todo.push_back(x.arg(i));
    }
  }
}
static std::unordered_map<unsigned, std::pair<z3::expr, std::unordered_set<unsigned>>> varCache;
static const std::unordered_set<unsigned> &varsOf(const z3::expr &e)
{
  auto it = varCache.find(e.id());
  if (it != varCache.end()) return it->second.second;
  std::unordered_set<unsigned> seen, vars;
  symsOf(e, seen, vars);
  return varCache.emplace(e.id(), std::make_pair(e, std::move(vars))).first->second.second;
}
// constraints of pc sharing variables (transitively) with q
static vector<z3::expr> slice(const vector<z3::expr> &pc, const z3::expr &q)
{
  std::unordered_set<unsigned> vars = varsOf(q);
  vector<char> in(pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); ++i) {
      if (in[i]) continue;
      auto &v = varsOf(pc[i]);
      bool hit = false;
      for (unsigned x : v)
        if (vars.count(x)) {
          hit = true;
          break;
        }
      if (hit || v.empty()) {
        in[i] = 1;
        for (unsigned x : v)
          if (vars.insert(x).second) ch = true;
      }
    }
  }
  vector<z3::expr> r;
  for (size_t i = 0; i < pc.size(); ++i)
    if (in[i]) r.push_back(pc[i]);
  return r;
}

static std::unordered_map<string, std::pair<z3::check_result, std::shared_ptr<z3::model>>> qcache;
static size_t dagSize(const z3::expr &e)
{
  std::unordered_set<unsigned> seen;
  vector<z3::expr> todo{ e };
  while (!todo.empty()) {
    z3::expr x = todo.back();
    todo.pop_back();
    if (!seen.insert(x.id()).second || !x.is_app()) continue;
    for (unsigned i = 0; i < x.num_args(); ++i) todo.push_back(x.arg(i));
  }
  return seen.size();
}

static std::unordered_map<unsigned, int> defVar;// ast id -> def index (sin var: 2*i, cos var: 2*i+1)
static bool hasReal(const z3::expr &e);
static std::unordered_map<unsigned, std::pair<z3::expr, bool>> realCache;
static bool hasReal(const z3::expr &e)
{
  auto it = realCache.find(e.id());
  if (it != realCache.end()) return it->second.second;
  bool r = false;
  std::unordered_set<unsigned> seen;
  vector<z3::expr> todo{ e };
  while (!todo.empty() && !r) {
    z3::expr x = todo.back();
    todo.pop_back();
    if (!seen.insert(x.id()).second) continue;
    if (x.is_real()) r = true;
    if (x.is_app())
      for (unsigned i = 0; i < x.num_args(); ++i) todo.push_back(x.arg(i));
  }
  realCache.emplace(e.id(), std::make_pair(e, r));
  return r;
}

static bool linear(const vector<z3::expr> &pc, const z3::expr &q)
{
  std::unordered_set<unsigned> seen;
  vector<z3::expr> todo(pc.begin(), pc.end());
  todo.push_back(q);
  while (!todo.empty()) {
    z3::expr x = todo.back();
    todo.pop_back();
    if (!seen.insert(x.id()).second || !x.is_app()) continue;
    const auto k = x.decl().decl_kind();
    if (k == Z3_OP_MUL || k == Z3_OP_DIV || k == Z3_OP_POWER) {
      unsigned n = 0;
      for (unsigned i = 0; i < x.num_args(); ++i) n += x.arg(i).is_numeral() ? 0 : 1;
      if (n > 1 || k == Z3_OP_POWER) return false;
    }
    for (unsigned i = 0; i < x.num_args(); ++i) todo.push_back(x.arg(i));
  }
  return true;
}

// Is pc /\ q satisfiable?
static z3::check_result check(const vector<z3::expr> &pc0, const z3::expr &q, std::shared_ptr<z3::model> *m, bool full = false)
{
  if (q.is_false()) return z3::unsat;
  double t0 = now();
  ++nQueries;
  vector<z3::expr> pc = full ? pc0 : slice(pc0, q);
  string key;
  for (auto &e : pc) key += std::to_string(e.id()) + ",";
  key += "|" + std::to_string(q.id());
  auto it = qcache.find(key);
  if (it != qcache.end()) {
    if (m) *m = it->second.second;
    return it->second.first;
  }
  z3::check_result r = z3::unknown;
  std::shared_ptr<z3::model> mm;
  bool real = hasReal(q);
  for (auto &e : pc)
    if (!real && hasReal(e)) real = true;
  const bool big = real && dagSize(q) > 600;
  // the expansion of large nested products within z3 is not interruptible
  if (real) Z3_global_param_set("smt.arith.nl.grobner", big ? "false" : "true");
  auto attempt = [&](z3::solver s, unsigned ms) {
    z3::params p(*C);
    p.set("timeout", ms);
    s.set(p);
    for (auto &e : pc) s.add(e);
    s.add(q);
    z3::check_result r = z3::unknown;
    try {
      r = s.check();
      if (r == z3::sat) mm = std::make_shared<z3::model>(s.get_model());
    } catch (z3::exception &) {
      r = z3::unknown;
    }
    return r;
  };
  if (real) {
    // search of a model: all the real inputs, or all but one, are fixed
    std::map<string, z3::expr> vars;
    if ((big || dagSize(q) > 60) && !linear(pc, q)) {
      std::unordered_set<unsigned> seen;
      vector<z3::expr> todo(pc.begin(), pc.end());
      todo.push_back(q);
      while (!todo.empty()) {
        z3::expr x = todo.back();
        todo.pop_back();
        if (!seen.insert(x.id()).second || !x.is_app()) continue;
        if (x.num_args() == 0 && x.is_real() && x.decl().decl_kind() == Z3_OP_UNINTERPRETED && !defVar.count(x.id()))
          vars.emplace(x.decl().name().str(), x);
        for (unsigned i = 0; i < x.num_args(); ++i) todo.push_back(x.arg(i));
      }
    }
    uint64_t seed = 88172645463325252ull;
    auto rnd = [&](unsigned n) {
      seed ^= seed << 13;
      seed ^= seed >> 7;
      seed ^= seed << 17;
      return (unsigned)(seed % n);
    };
    auto slices = [&](int tries, double budget, unsigned freeVars) {
      static const char *vals[] = { "0", "1", "-1", "1/2", "2", "-1/2", "3/2", "-2", "1/4", "3", "-3/2", "3/4" };
      double t1 = now();
      for (int t = 0; t < tries && now() - t1 < budget && r != z3::sat; ++t) {
        const unsigned free = freeVars ? rnd((unsigned)vars.size()) : (unsigned)vars.size();
        z3::expr_vector from(*C), to(*C);
        unsigned k = 0;
        for (auto &v : vars)
          if (k++ != free) {
            from.push_back(v.second);
            to.push_back(C->real_val(vals[rnd(12)]));
          }
        z3::solver s(*C, "QF_NRA");
        z3::params p(*C);
        p.set("timeout", 400u);
        p.set("rlimit", 1500000u);
        s.set(p);
        bool no = false;
        auto put = [&](const z3::expr &e) {
          z3::expr c = e;
          c = c.substitute(from, to).simplify();
          if (c.is_false()) no = true;
          if (!c.is_true()) s.add(c);
        };
        for (auto &e : pc) {
          put(e);
          if (no) break;
        }
        if (!no) put(q);
        if (no) continue;
        for (unsigned i = 0; i < from.size(); ++i) s.add(from[i] == to[i]);
        try {
          if (s.check() == z3::sat) {
            mm = std::make_shared<z3::model>(s.get_model());
            r = z3::sat;
          }
        } catch (z3::exception &) {
        }
      }
    };
    if (vars.size() > 1) slices(40, 1.0, 0);
    if (r == z3::unknown) r = attempt(z3::solver(*C), std::min(O.solverMs, 3000u));
    if (r == z3::unknown && vars.size() > 1) slices(400, 8.0, 1);
    if (r == z3::unknown) {
      z3::tactic t = z3::tactic(*C, "simplify") & z3::tactic(*C, "purify-arith") & z3::tactic(*C, "elim-term-ite")
                     & z3::tactic(*C, "solve-eqs") & z3::tactic(*C, "tseitin-cnf") & z3::tactic(*C, "nlsat");
      try {
        r = attempt(t.mk_solver(), O.solverMs);
      } catch (z3::exception &) {
        r = z3::unknown;
      }
    }
    if (r == z3::unknown) {
      try {
        r = attempt(z3::tactic(*C, "qfnra").mk_solver(), O.solverMs);
      } catch (z3::exception &) {
        r = z3::unknown;
      }
    }
    if (r == z3::unknown) r = attempt(z3::solver(*C), O.solverMs);
  } else {
    // bit-vectors: short bit-blasting attempt, then the integer-blasting solver, then a long attempt
    r = attempt(z3::solver(*C), std::min(O.solverMs, 1500u));
    if (r == z3::unknown) {
      try {
        z3::solver s2(*C, z3::solver::simple());
        z3::params p(*C);
        p.set("smt.bv.solver", 2u);
        s2.set(p);
        r = attempt(s2, O.solverMs);
        if (r == z3::sat && mm) {
          bool good = mm->eval(q, true).is_true();
          for (auto &e : pc) good = good && mm->eval(e, true).is_true();
          if (!good) {
            r = z3::unknown;
            mm.reset();
          }
        }
      } catch (z3::exception &) {
        r = z3::unknown;
      }
    }
    if (r == z3::unknown) r = attempt(z3::solver(*C), O.solverMs);
  }
  tSolver += now() - t0;
  qcache.emplace(key, std::make_pair(r, mm));
  // keep q/pc ids alive
  static std::deque<z3::expr> keep;
  keep.push_back(q);
  for (auto &e : pc) keep.push_back(e);
  if (m) *m = mm;
  return r;
}

// ---------------------------------------------------------------- definitional reals (trig, sqrt)
struct Def
{
  int kind;// 0 trig pair, 1 sqrt
  z3::expr arg, a, b;// trig: a=sin, b=cos ; sqrt: a
};
static vector<Def> defs;

// polynomial normal form for comparing
static z3::expr norm(const z3::expr &e)
{
  z3::params p(*C);
  p.set("som", true);
  p.set("som_blowup", 100000u);
  p.set("hoist_ite", false);
  return e.simplify(p);
}
static bool provedEq(const z3::expr &a, const z3::expr &b)
{
  z3::expr d = norm(a - b);
  return d.is_numeral() && z3::eq(d, C->real_val(0));
}
static void useDef(State &S, unsigned i)
{
  if (!S.axioms.insert(i).second) return;
  Def &d = defs[i];
  if (d.kind == 0)
    S.pc.push_back(d.a * d.a + d.b * d.b == 1);
  else {
    S.pc.push_back(d.a >= 0);
    S.pc.push_back(d.a * d.a == d.arg);
  }
  S.model.reset();
}
static void trig(State &S, const z3::expr &argIn, z3::expr &s, z3::expr &c)
{
  z3::expr arg = norm(argIn);
  if (arg.is_numeral()) {
    // constant angles: the values that the library function returns
    const double d = arg.as_double();
    s = ratOfDouble(std::sin(d));
    c = ratOfDouble(std::cos(d));
    return;
  }
  for (size_t i = 0; i < defs.size(); ++i) {
    if (defs[i].kind != 0) continue;
    if (z3::eq(defs[i].arg, arg) || provedEq(defs[i].arg, arg)) {
      useDef(S, i);
      s = defs[i].a;
      c = defs[i].b;
      return;
    }
    if (provedEq(defs[i].arg * 2, arg)) {
      useDef(S, i);
      s = 2 * defs[i].a * defs[i].b;
      c = defs[i].b * defs[i].b - defs[i].a * defs[i].a;
      return;
    }
    if (provedEq(defs[i].arg, -arg)) {
      useDef(S, i);
      s = -defs[i].a;
      c = defs[i].b;
      return;
    }
  }
  // If the argument looks like twice something else (all even), introduce the half angle:
  // callers of double angles normally evaluate the single angle as well, possibly later.
  z3::expr half = norm(arg / 2);
  unsigned i = defs.size();
  string n = "trig!" + std::to_string(i);
  z3::expr sv = C->real_const((n + "s").c_str()), cv = C->real_const((n + "c").c_str());
  // represent the half angle, so that both arg and its half are available
  defs.push_back(Def{ 0, half, sv, cv });
  defVar[sv.id()] = 2 * i;
  defVar[cv.id()] = 2 * i + 1;
  useDef(S, i);
  s = 2 * sv * cv;
  c = cv * cv - sv * sv;
}

// symbolic derivative
static z3::expr diff(const z3::expr &e, const z3::expr &x, std::unordered_map<unsigned, z3::expr> &memo)
{
  auto it = memo.find(e.id());
  if (it != memo.end()) return it->second;
  z3::expr r = C->real_val(0);
  auto zero = C->real_val(0);
  auto isZ = [&](const z3::expr &q) { return z3::eq(q, zero); };
  if (e.is_numeral())
    r = zero;
  else if (z3::eq(e, x))
    r = C->real_val(1);
  else {
    Z3_decl_kind k = e.decl().decl_kind();
    unsigned n = e.num_args();
    if (n == 0) {
      auto dv = defVar.find(e.id());
      if (dv == defVar.end())
        r = zero;
      else {
        Def &d = defs[dv->second / 2];
        z3::expr da = diff(d.arg, x, memo);
        if (isZ(da))
          r = zero;
        else if (d.kind == 0)
          r = (dv->second & 1) ? -d.a * da : d.b * da;
        else
          r = da / (2 * d.a);
      }
    } else if (k == Z3_OP_ADD) {
      for (unsigned i = 0; i < n; ++i) {
        z3::expr di = diff(e.arg(i), x, memo);
        if (!isZ(di)) r = isZ(r) ? di : r + di;
      }
    } else if (k == Z3_OP_SUB) {
      r = diff(e.arg(0), x, memo);
      for (unsigned i = 1; i < n; ++i) {
        z3::expr di = diff(e.arg(i), x, memo);
        if (!isZ(di)) r = r - di;
      }
    } else if (k == Z3_OP_UMINUS)
      r = -diff(e.arg(0), x, memo);
    else if (k == Z3_OP_MUL) {
      for (unsigned i = 0; i < n; ++i) {
        z3::expr di = diff(e.arg(i), x, memo);
        if (isZ(di)) continue;
        z3::expr t = di;
        for (unsigned j = 0; j < n; ++j)
          if (j != i) t = t * e.arg(j);
        r = isZ(r) ? t : r + t;
      }
    } else if (k == Z3_OP_DIV) {
      z3::expr a = e.arg(0), b = e.arg(1);
      z3::expr da = diff(a, x, memo), db = diff(b, x, memo);
      if (isZ(db))
        r = isZ(da) ? zero : da / b;
      else
        r = (da * b - a * db) / (b * b);
    } else if (k == Z3_OP_ITE)
      r = z3::ite(e.arg(0), diff(e.arg(1), x, memo), diff(e.arg(2), x, memo));
    else if (k == Z3_OP_POWER && e.arg(1).is_numeral()) {
      r = e.arg(1) * z3::pw(e.arg(0), e.arg(1) - 1) * diff(e.arg(0), x, memo);
    } else
      throw Unsupported{ "diff of " + e.decl().name().str() };
  }
  memo.emplace(e.id(), r);
  return r;
}

// ---------------------------------------------------------------- model output
static string modelStr(const z3::model &m, const z3::expr &v)
{
  z3::expr r = m.eval(v, true);
  if (v.is_real()) {
    if (r.is_numeral()) return r.get_decimal_string(30) + "|" + r.to_string();
    if (r.is_algebraic()) return r.get_decimal_string(30);
    return "0|" + r.to_string();
  }
  if (v.is_bv()) {
    unsigned w = v.get_sort().bv_size();
    return std::to_string((long long)sext(r.get_numeral_uint64(), w));
  }
  return r.to_string();
}
static std::map<string, string> fullModel(State &S, const z3::expr &q, bool *ok = nullptr)
{
  std::shared_ptr<z3::model> m;
  auto r = check(S.pc, q, &m);
  if (r == z3::sat && m) {
    // extend the model of the relevant constraints to the whole path
    z3::solver s(*C);
    z3::params p(*C);
    p.set("timeout", 5000u);
    s.set(p);
    for (auto &e : S.pc) s.add(e);
    s.add(q);
    for (auto &kv : S.syms) {
      z3::expr v = m->eval(kv.second);
      if (v.is_numeral() || v.is_true() || v.is_false()) s.add(kv.second == v);
    }
    try {
      r = s.check();
      if (r == z3::sat) m = std::make_shared<z3::model>(s.get_model());
    } catch (z3::exception &) {
      r = z3::unknown;
    }
    if (r != z3::sat) r = check(S.pc, q, &m, true);
  }
  std::map<string, string> out;
  if (ok) *ok = r == z3::sat;
  if (r != z3::sat || !m) return out;
  for (auto &kv : S.syms) out[kv.first] = modelStr(*m, kv.second);
  return out;
}

static string where(State &S)
{
  string r;
  for (int i = (int)S.st.size() - 1, n = 0; i >= 0 && n < 4; --i, ++n)
    r += (n ? " < " : "") + llvm::demangle(S.st[i].f->getName().str()).substr(0, 140);
  return r;
}
static void fail(State &S, const string &kind, const string &msg, const z3::expr &q)
{
  string key = kind + ":" + msg;
  if (kind != "assert") key += ":" + where(S).substr(0, 200);
  if (failKeys.count(key)) return;
  bool ok;
  auto m = fullModel(S, q, &ok);
  if (!ok) {
    incomplete["unconfirmed model: " + key]++;
    return;
  }
  failKeys.insert(key);
  failures.push_back(Failure{ kind, msg, where(S), m });
}

// ---------------------------------------------------------------- executor
struct Exec
{
  Module &M;
  std::deque<State> work;
  State *cur = nullptr;

  Exec(Module &m) : M(m) {}

  // -------- condition handling
  // returns concrete truth; forks if both feasible (the other side is queued, re-executing the instruction)
  bool decide(State &S, z3::expr c)
  {
    c = c.simplify();
    if (c.is_true()) return true;
    if (c.is_false()) return false;
    int known = -1;
    if (S.model) {
      z3::expr v = S.model->eval(c, true);
      if (v.is_true()) known = 1;
      if (v.is_false()) known = 0;
    }
    z3::expr nc = (!c).simplify();
    std::shared_ptr<z3::model> mt, mf;
    z3::check_result rt = z3::sat, rf = z3::sat;
    if (known != 1) rt = check(S.pc, c, &mt);
    if (known != 0) rf = (rt == z3::unsat) ? z3::sat : check(S.pc, nc, &mf);
    if (rt == z3::unknown || rf == z3::unknown) {
      incomplete["solver unknown at a branch (both sides kept)"]++;
    }
    bool t = rt != z3::unsat, f = rf != z3::unsat;
    if (t && f) {
      State alt = S;
      alt.pc.push_back(nc);
      if (known == 1 || !S.model) alt.model.reset();
      else if (known == 0)
        ;// model still fine for the false side
      else
        alt.model.reset();
      ++nForks;
      work.push_back(std::move(alt));
      S.pc.push_back(c);
      if (known == 0 || known == -1) S.model.reset();
      refreshModel(S);
      return true;
    }
    if (t) return true;
    if (f) return false;
    throw PathEnd{ "infeasible" };
  }
  void refreshModel(State &S)
  {
    if (S.model) return;
    bool anyReal = false;
    for (auto &e : S.pc)
      if (hasReal(e)) {
        anyReal = true;
        break;
      }
    if (anyReal) return;// only bother for integer-only path conditions
    std::shared_ptr<z3::model> m;
    if (check(S.pc, C->bool_val(true), &m, true) == z3::sat) S.model = m;
  }
  u128 concretize(State &S, const Val &v)
  {
    if (v.k == Val::Int) return v.i;
    if (v.k != Val::Sym || v.isReal) throw Unsupported{ "concretize non-integer" };
    z3::expr e = v.e->simplify();
    if (e.is_numeral()) return e.get_numeral_uint64();
    std::shared_ptr<z3::model> m = S.model;
    if (!m) {
      // the candidate value must be consistent with the sliced path condition
      if (check(S.pc, e == e.ctx().bv_const("cz!", e.get_sort().bv_size()), &m) != z3::sat || !m)
        throw Unsupported{ "concretize: solver gave no value" };
    }
    z3::expr val = m->eval(e, true);
    uint64_t x = val.get_numeral_uint64();
    z3::expr c = (e == val);
    if (!decide(S, c)) return concretize(S, v);
    return x;
  }

  // -------- asserting
  void doAssert(State &S, const z3::expr &c0, const string &msg, const string &kind = "assert")
  {
    assertCount[msg]++;
    z3::expr c = c0.simplify();
    if (c.is_true()) return;
    ++nSolverAsserts;
    assertSolver[msg]++;
    if (c.is_false()) {
      fail(S, kind, msg, C->bool_val(true));
      throw PathEnd{ "assertion fails on the whole path" };
    }
    z3::expr nc = !c;
    std::shared_ptr<z3::model> m;
    auto r = check(S.pc, nc, &m);
    if (r == z3::unsat) return;
    if (r == z3::unknown) {
      incomplete["solver unknown on: " + msg]++;
      return;
    }
    fail(S, kind, msg, nc);
    if (hasReal(nc)) throw PathEnd{ "assertion fails" };
    S.pc.push_back(c);
    S.model.reset();
    if (check(S.pc, C->bool_val(true), &m, true) == z3::unsat) throw PathEnd{ "assertion fails on the whole path" };
  }
  void memErr(State &S, const string &msg)
  {
    fail(S, "memory", msg, C->bool_val(true));
    throw PathEnd{ "memory error" };
  }

  // -------- memory
  ObjP find(State &S, uint64_t a, uint64_t &base, bool &isG)
  {
    auto it = S.mem.upper_bound(a);
    if (it != S.mem.begin()) {
      --it;
      if (a < it->first + std::max<uint64_t>(it->second->size, 1)) {
        base = it->first;
        isG = false;
        return it->second;
      }
    }
    auto g = gmem.upper_bound(a);
    if (g != gmem.begin()) {
      --g;
      if (a < g->first + std::max<uint64_t>(g->second->size, 1)) {
        base = g->first;
        isG = true;
        return g->second;
      }
    }
    return nullptr;
  }
  uint64_t alloc(State &S, uint64_t size, const string &name, uint64_t align = 16)
  {
    auto o = std::make_shared<Obj>();
    o->size = size;
    o->name = name;
    o->b.assign(size, 0);
    o->tag.assign(size, 0);
    S.next = (S.next + 31) & ~31ull;
    uint64_t a = S.next;
    S.next += size + 64;
    S.mem[a] = o;
    return a;
  }
  Obj *writable(State &S, uint64_t base, bool isG)
  {
    if (isG) {
      ObjP g = gmem[base];
      if (g->isConst) memErr(S, "write to constant " + g->name);
      S.mem[base] = std::make_shared<Obj>(*g);
      return S.mem[base].get();
    }
    ObjP &p = S.mem[base];
    if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
    return p.get();
  }
  // removes the symbolic entries that [off, off + n) covers completely
  static void dropCovered(Obj &o, uint64_t off, uint64_t n)
  {
    for (auto it = o.sym.lower_bound((uint32_t)off); it != o.sym.end() && it->first < off + n;)
      it = it->first + it->second.second <= off + n ? o.sym.erase(it) : std::next(it);
  }
  static void rawStore(Obj &o, uint64_t off, const Val &v, unsigned sz)
  {
    // drop overlapped symbolic entries (splitting is only supported for full overwrite or BVs)
    auto it = o.sym.lower_bound(off >= 16 ? (uint32_t)off - 16 : 0);
    while (it != o.sym.end() && it->first < off + sz) {
      uint64_t s = it->first, e = s + it->second.second;
      if (e <= off) {
        ++it;
        continue;
      }
      if (s >= off && e <= off + sz) {
        it = o.sym.erase(it);
        continue;
      }
      // partial overlap: split BV into bytes
      Val old = it->second.first;
      it = o.sym.erase(it);
      if (old.k == Val::Sym && !old.isReal) {
        for (uint64_t b = s; b < e; ++b) {
          if (b >= off && b < off + sz) continue;
          unsigned lo = 8 * (b - s);
          o.sym[b] = { Val::mkBV(old.e->extract(lo + 7, lo)), 1 };
          o.tag[b] = 2;
        }
        it = o.sym.lower_bound(off >= 16 ? (uint32_t)off - 16 : 0);
      } else
        throw Unsupported{ "partial overwrite of a symbolic real (" + o.name + " entry " + std::to_string(s) + "-" + std::to_string(e) + " write " + std::to_string(off) + "+" + std::to_string(sz) + ")" };
    }
    if (v.k == Val::Undef) {
      for (unsigned k = 0; k < sz; ++k) o.tag[off + k] = 0;
      return;
    }
    if (v.k == Val::Int) {
      u128 x = v.i;
      for (unsigned k = 0; k < sz; ++k) {
        o.b[off + k] = (uint8_t)x;
        x >>= 8;
        o.tag[off + k] = 1;
      }
      return;
    }
    if (v.k == Val::Fp) {
      if (sz == 4) {
        float f = (float)v.d;
        memcpy(&o.b[off], &f, 4);
      } else if (sz == 8)
        memcpy(&o.b[off], &v.d, 8);
      else
        throw Unsupported{ "fp store size" };
      for (unsigned k = 0; k < sz; ++k) o.tag[off + k] = 1;
      return;
    }
    Val vv = v;
    if (v.k == Val::Sym && !v.isReal && v.w < sz * 8) vv = Val::mkBV(z3::zext(*v.e, sz * 8 - v.w));
    if (vv.k == Val::Int) {
      rawStore(o, off, vv, sz);
      return;
    }
    o.sym[off] = { vv, sz };
    for (unsigned k = 0; k < sz; ++k) o.tag[off + k] = 2;
  }
  Val rawLoad(const Obj &o, uint64_t off, unsigned sz, bool fp, unsigned bits)
  {
    bool allC = true, anyT = false, allU = true;
    for (unsigned k = 0; k < sz; ++k) {
      if (o.tag[off + k] != 1) allC = false;
      if (o.tag[off + k] != 0) allU = false;
      if (o.tag[off + k] == 2) anyT = true;
    }
    if (allC) {
      if (fp) {
        if (sz == 4) {
          float f;
          memcpy(&f, &o.b[off], 4);
          return Val::mkFp(f, 32);
        }
        double d;
        memcpy(&d, &o.b[off], 8);
        return Val::mkFp(d, 64);
      }
      u128 x = 0;
      for (int k = (int)sz - 1; k >= 0; --k) x = (x << 8) | o.b[off + k];
      return Val::mkInt(x, bits);
    }
    if (allU) return Val();
    if (anyT) {
      auto it = o.sym.find(off);
      if (it != o.sym.end() && it->second.second == sz) {
        Val v = it->second.first;
        if (!v.isReal && v.k == Val::Sym && v.w > bits) v = Val::mkBV(v.e->extract(bits - 1, 0));
        return v;
      }
    }
    // two reals as one wide load
    if (sz == 16) {
      Val a = rawLoad(o, off, 8, false, 64), b = rawLoad(o, off + 8, 8, false, 64);
      return Val::mkAgg({ a, b });
    }
    vector<z3::expr> parts;// most significant first
    for (int k = (int)sz - 1; k >= 0; --k) {
      if (o.tag[off + k] == 1)
        parts.push_back(C->bv_val((uint64_t)o.b[off + k], 8));
      else if (o.tag[off + k] == 0)
        parts.push_back(C->bv_val(0, 8));
      else {
        auto it = o.sym.upper_bound(off + k);
        if (it == o.sym.begin()) throw Unsupported{ "symbolic byte lookup" };
        --it;
        const Val &v = it->second.first;
        unsigned lo = 8 * (off + k - it->first);
        if (v.isReal || v.k != Val::Sym) throw Unsupported{ "byte of a symbolic real" };
        parts.push_back(v.e->extract(lo + 7, lo));
      }
    }
    z3::expr e = parts[0];
    for (size_t k = 1; k < parts.size(); ++k) e = z3::concat(e, parts[k]);
    e = e.simplify();
    if (bits < sz * 8) e = e.extract(bits - 1, 0);
    return Val::mkBV(e);
  }

  // Resolve an access; returns concrete base/off or, for symbolic offsets, the list of candidates.
  struct Acc
  {
    ObjP o;
    uint64_t base = 0;
    bool isG = false;
    uint64_t off = 0;
    bool symbolic = false;
    z3::expr addr;
    vector<uint64_t> cand;
    Acc() : addr(*C) {}
  };
  Acc resolve(State &S, const Val &p, unsigned sz)
  {
    Acc a;
    if (p.k == Val::Undef) memErr(S, "access through an uninitialised pointer");
    if (p.k == Val::Int) {
      uint64_t ad = (uint64_t)p.i;
      a.o = find(S, ad, a.base, a.isG);
      if (!a.o) memErr(S, ad < 4096 ? "null pointer access" : "access outside any live object");
      a.off = ad - a.base;
      if (a.off + sz > a.o->size) memErr(S, "out-of-bounds access of object '" + objKind(*a.o) + "'");
      return a;
    }
    if (p.k != Val::Sym || p.isReal) throw Unsupported{ "pointer value" };
    z3::expr e = p.e->simplify();
    if (e.is_numeral()) return resolve(S, Val::mkInt(e.get_numeral_uint64(), 64), sz);
    std::shared_ptr<z3::model> m = S.model;
    if (!m && (check(S.pc, e == C->bv_const("cz!", 64), &m) != z3::sat || !m)) throw Unsupported{ "pointer: no model" };
    uint64_t ad = m->eval(e, true).get_numeral_uint64();
    a.o = find(S, ad, a.base, a.isG);
    if (!a.o || ad - a.base + sz > a.o->size) {
      // some address is bad: fail for this value, continue with others
      z3::expr c = (e == C->bv_val((uint64_t)ad, 64));
      if (decide(S, c)) memErr(S, "out-of-bounds access (symbolic index)");
      return resolve(S, p, sz);
    }
    z3::expr b = C->bv_val((uint64_t)a.base, 64);
    z3::expr inside = z3::ule(e - b, C->bv_val((uint64_t)(a.o->size - sz), 64));
    if (!decide(S, inside)) return resolve(S, p, sz);
    uint64_t r = (ad - a.base) % sz;
    bool aligned = sz == 1;
    if (!aligned) {
      z3::expr al = z3::urem(e - b, C->bv_val((uint64_t)sz, 64)) == C->bv_val((uint64_t)r, 64);
      std::shared_ptr<z3::model> mm;
      aligned = check(S.pc, !al, &mm) == z3::unsat;
    }
    uint64_t n = (a.o->size - sz - r) / sz + 1;
    if (!aligned || n > 128) {
      uint64_t v = (uint64_t)concretize(S, p);
      return resolve(S, Val::mkInt(v, 64), sz);
    }
    a.symbolic = true;
    a.addr = e;
    for (uint64_t off = r; off + sz <= a.o->size; off += sz) a.cand.push_back(off);
    return a;
  }
  static string objKind(const Obj &o) { return o.name; }

  static Val iteVal(const z3::expr &c, const Val &a, const Val &b)
  {
    if (a.k == Val::Agg && b.k == Val::Agg) {
      vector<Val> r;
      for (size_t i = 0; i < a.agg->size(); ++i) r.push_back(iteVal(c, (*a.agg)[i], (*b.agg)[i]));
      return Val::mkAgg(r);
    }
    if (a.isFloat() || b.isFloat()) return Val::mkReal(z3::ite(c, toReal(a), toReal(b)), std::max(a.w, b.w));
    if (a.k == Val::Int && b.k == Val::Int && a.i == b.i) return a;
    return Val::mkBV(z3::ite(c, toBV(a), toBV(b)));
  }
  Val load(State &S, const Val &p, Type *ty)
  {
    if (auto *vt = dyn_cast<FixedVectorType>(ty)) {
      vector<Val> r;
      uint64_t es = DL->getTypeStoreSize(vt->getElementType());
      for (unsigned k = 0; k < vt->getNumElements(); ++k) r.push_back(load(S, addPtr(p, k * es), vt->getElementType()));
      return Val::mkAgg(r);
    }
    if (ty->isAggregateType()) {
      vector<Val> r;
      if (auto *st = dyn_cast<StructType>(ty)) {
        auto *sl = DL->getStructLayout(st);
        for (unsigned k = 0; k < st->getNumElements(); ++k)
          r.push_back(load(S, addPtr(p, sl->getElementOffset(k)), st->getElementType(k)));
      } else {
        auto *at = cast<ArrayType>(ty);
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned k = 0; k < at->getNumElements(); ++k) r.push_back(load(S, addPtr(p, k * es), at->getElementType()));
      }
      return Val::mkAgg(r);
    }
    unsigned sz = DL->getTypeStoreSize(ty);
    bool fp = ty->isFloatingPointTy();
    unsigned bits = DL->getTypeSizeInBits(ty);
    if (ty->isX86_FP80Ty()) throw Unsupported{ "long double" };
    Acc a = resolve(S, p, sz);
    if (!a.symbolic) return rawLoad(*a.o, a.off, sz, fp, bits);
    Val r;
    bool first = true;
    for (auto it = a.cand.rbegin(); it != a.cand.rend(); ++it) {
      Val v = rawLoad(*a.o, *it, sz, fp, bits);
      if (v.k == Val::Undef) {
        // reading an undefined element must be infeasible
        z3::expr c = a.addr == C->bv_val((uint64_t)(a.base + *it), 64);
        std::shared_ptr<z3::model> mm;
        if (check(S.pc, c, &mm) == z3::unsat) continue;
        uint64_t x = (uint64_t)concretize(S, p);
        return load(S, Val::mkInt(x, 64), ty);
      }
      if (first) {
        r = v;
        first = false;
      } else
        r = iteVal(a.addr == C->bv_val((uint64_t)(a.base + *it), 64), v, r);
    }
    return r;
  }
  void store(State &S, const Val &p, const Val &v, Type *ty)
  {
    if (auto *vt = dyn_cast<FixedVectorType>(ty)) {
      uint64_t es = DL->getTypeStoreSize(vt->getElementType());
      for (unsigned k = 0; k < vt->getNumElements(); ++k)
        store(S, addPtr(p, k * es), v.k == Val::Undef ? Val() : (*v.agg)[k], vt->getElementType());
      return;
    }
    if (ty->isAggregateType()) {
      if (auto *st = dyn_cast<StructType>(ty)) {
        auto *sl = DL->getStructLayout(st);
        for (unsigned k = 0; k < st->getNumElements(); ++k)
          store(S, addPtr(p, sl->getElementOffset(k)), v.k == Val::Undef ? Val() : (*v.agg)[k], st->getElementType(k));
      } else {
        auto *at = cast<ArrayType>(ty);
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned k = 0; k < at->getNumElements(); ++k)
          store(S, addPtr(p, k * es), v.k == Val::Undef ? Val() : (*v.agg)[k], at->getElementType());
      }
      return;
    }
    unsigned sz = DL->getTypeStoreSize(ty);
    if (v.k == Val::Agg) {// i128 pair
      if (sz != 16 || v.agg->size() != 2) throw Unsupported{ "aggregate store" };
      Type *i64 = Type::getInt64Ty(M.getContext());
      store(S, p, (*v.agg)[0], i64);
      store(S, addPtr(p, 8), (*v.agg)[1], i64);
      return;
    }
    Acc a = resolve(S, p, sz);
    if (!a.symbolic) {
      a.o.reset();
      rawStore(*writable(S, a.base, a.isG), a.off, v, sz);
      return;
    }
    bool fp = ty->isFloatingPointTy();
    unsigned bits = DL->getTypeSizeInBits(ty);
    vector<Val> olds;
    for (auto off : a.cand) {
      Val o = rawLoad(*a.o, off, sz, fp || v.isFloat(), bits);
      if (o.k == Val::Undef || v.k == Val::Undef) {
        uint64_t x = (uint64_t)concretize(S, p);
        store(S, Val::mkInt(x, 64), v, ty);
        return;
      }
      olds.push_back(o);
    }
    a.o.reset();
    Obj *w = writable(S, a.base, a.isG);
    for (size_t k = 0; k < a.cand.size(); ++k)
      rawStore(*w, a.cand[k], iteVal(a.addr == C->bv_val((uint64_t)(a.base + a.cand[k]), 64), v, olds[k]), sz);
  }
  static Val addPtr(const Val &p, uint64_t off)
  {
    if (off == 0) return p;
    if (p.k == Val::Int) return Val::mkInt(p.i + off, 64);
    if (p.k == Val::Undef) return p;
    return Val::mkBV(*p.e + C->bv_val(off, 64));
  }
  void copyMem(State &S, uint64_t dst, uint64_t src, uint64_t n)
  {
    if (n == 0) return;
    uint64_t bs, bd;
    bool gs, gd;
    ObjP so = find(S, src, bs, gs);
    if (!so || src - bs + n > so->size) memErr(S, "memcpy source out of bounds");
    Obj tmp = *so;// snapshot for overlap
    ObjP dO = find(S, dst, bd, gd);
    if (!dO || dst - bd + n > dO->size) memErr(S, "memcpy destination out of bounds");
    so.reset();
    dO.reset();
    Obj *w = writable(S, bd, gd);
    uint64_t so0 = src - bs, do0 = dst - bd;
    dropCovered(*w, do0, n);
    uint64_t k = 0;
    while (k < n) {
      if (tmp.tag[so0 + k] == 2) {
        auto it = tmp.sym.find(so0 + k);
        if (it != tmp.sym.end() && k + it->second.second <= n) {
          rawStore(*w, do0 + k, it->second.first, it->second.second);
          k += it->second.second;
          continue;
        }
        Val b = rawLoad(tmp, so0 + k, 1, false, 8);
        rawStore(*w, do0 + k, b, 1);
        ++k;
        continue;
      }
      if (tmp.tag[so0 + k] == 1)
        rawStore(*w, do0 + k, Val::mkInt(tmp.b[so0 + k], 8), 1);
      else
        rawStore(*w, do0 + k, Val(), 1);
      ++k;
    }
  }
  string cstr(State &S, const Val &p)
  {
    uint64_t a = (uint64_t)concretize(S, p);
    string r;
    uint64_t base;
    bool g;
    ObjP o = find(S, a, base, g);
    if (!o) memErr(S, "bad string pointer");
    for (uint64_t k = a - base; k < o->size && o->tag[k] == 1 && o->b[k]; ++k) r += (char)o->b[k];
    return r;
  }

  // -------- constants
  std::unordered_map<const Constant *, Val> ccache;
  Val constant(const Constant *c)
  {
    auto it = ccache.find(c);
    if (it != ccache.end()) return it->second;
    Val v = constant0(c);
    ccache[c] = v;
    return v;
  }
  Val constant0(const Constant *c)
  {
    Type *ty = c->getType();
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
      const APInt &a = ci->getValue();
      if (a.getBitWidth() > 128) throw Unsupported{ "wide int" };
      u128 x = a.getRawData()[0];
      if (a.getNumWords() > 1) x |= ((u128)a.getRawData()[1]) << 64;
      return Val::mkInt(x, a.getBitWidth());
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
      if (ty->isFloatTy()) return Val::mkFp(cf->getValueAPF().convertToFloat(), 32);
      if (ty->isDoubleTy()) return Val::mkFp(cf->getValueAPF().convertToDouble(), 64);
      throw Unsupported{ "fp type" };
    }
    if (isa<ConstantPointerNull>(c)) return Val::mkInt(0, 64);
    if (isa<UndefValue>(c)) {// includes poison
      if (ty->isAggregateType() || ty->isVectorTy()) return zeroOrUndef(ty, true);
      return Val();
    }
    if (isa<ConstantAggregateZero>(c)) return zeroOrUndef(ty, false);
    if (auto *gv = dyn_cast<GlobalValue>(c)) return Val::mkInt(addrOf(gv), 64);
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
      vector<Val> r;
      for (unsigned k = 0; k < ca->getNumOperands(); ++k) r.push_back(constant(ca->getOperand(k)));
      return Val::mkAgg(r);
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
      vector<Val> r;
      for (unsigned k = 0; k < cd->getNumElements(); ++k) r.push_back(constant(cd->getElementAsConstant(k)));
      return Val::mkAgg(r);
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        auto *g = cast<GEPOperator>(ce);
        if (!g->accumulateConstantOffset(*DL, off)) throw Unsupported{ "constexpr gep" };
        return addPtr(constant(cast<Constant>(g->getPointerOperand())), off.getSExtValue());
      }
      case Instruction::BitCast:
      case Instruction::PtrToInt:
      case Instruction::IntToPtr: {
        Val v = constant(ce->getOperand(0));
        if (v.k == Val::Int) return Val::mkInt(v.i, DL->getTypeSizeInBits(ty));
        return v;
      }
      case Instruction::Sub:
      case Instruction::Add:
      case Instruction::Trunc: {
        Val a = constant(ce->getOperand(0));
        if (ce->getOpcode() == Instruction::Trunc) return Val::mkInt(a.i, DL->getTypeSizeInBits(ty));
        Val b = constant(ce->getOperand(1));
        return Val::mkInt(ce->getOpcode() == Instruction::Sub ? a.i - b.i : a.i + b.i, a.w);
      }
      }
    }
    string s;
    raw_string_ostream os(s);
    c->print(os);
    throw Unsupported{ "constant " + s };
  }
  Val zeroOrUndef(Type *ty, bool undef)
  {
    if (auto *st = dyn_cast<StructType>(ty)) {
      vector<Val> r;
      for (auto *e : st->elements()) r.push_back(zeroOrUndef(e, undef));
      return Val::mkAgg(r);
    }
    if (auto *at = dyn_cast<ArrayType>(ty)) {
      vector<Val> r(at->getNumElements(), zeroOrUndef(at->getElementType(), undef));
      return Val::mkAgg(r);
    }
    if (auto *vt = dyn_cast<FixedVectorType>(ty)) {
      vector<Val> r(vt->getNumElements(), zeroOrUndef(vt->getElementType(), undef));
      return Val::mkAgg(r);
    }
    if (undef) return Val();
    if (ty->isFloatingPointTy()) return Val::mkFp(0, ty->isFloatTy() ? 32 : 64);
    return Val::mkInt(0, DL->getTypeSizeInBits(ty));
  }
  uint64_t nextG = 0x100000;
  uint64_t addrOf(const GlobalValue *gv)
  {
    if (auto *al = dyn_cast<GlobalAlias>(gv)) return addrOf(cast<GlobalValue>(al->getAliasee()->stripPointerCasts()));
    auto it = gaddr.find(gv);
    if (it != gaddr.end()) return it->second;
    uint64_t a = nextG = (nextG + 63) & ~63ull;
    gaddr[gv] = a;
    if (auto *f = dyn_cast<Function>(gv)) {
      faddr[a] = f;
      nextG += 64;
      return a;
    }
    auto *g = cast<GlobalVariable>(gv);
    auto o = std::make_shared<Obj>();
    o->name = llvm::demangle(g->getName().str());
    uint64_t size = g->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g->getValueType()) : 8;
    if (!g->hasInitializer()) size = std::max<uint64_t>(size, 64);
    o->size = size;
    o->b.assign(size, 0);
    o->tag.assign(size, g->hasInitializer() ? 0 : 1);
    nextG += size + 64;
    gmem[a] = o;
    if (g->hasInitializer()) {
      initObj(*o, 0, g->getInitializer());
      o->isConst = g->isConstant();
    } else if (g->getName() == "__libc_single_threaded")
      o->b[0] = 1;
    return a;
  }
  void initObj(Obj &o, uint64_t off, const Constant *c)
  {
    Type *ty = c->getType();
    if (isa<ConstantAggregateZero>(c)) {
      uint64_t n = DL->getTypeAllocSize(ty);
      for (uint64_t k = 0; k < n; ++k) o.tag[off + k] = 1;
      return;
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
      uint64_t es = DL->getTypeAllocSize(cd->getElementType());
      for (unsigned k = 0; k < cd->getNumElements(); ++k) initObj(o, off + k * es, cd->getElementAsConstant(k));
      return;
    }
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
      if (auto *st = dyn_cast<StructType>(ty)) {
        auto *sl = DL->getStructLayout(st);
        for (unsigned k = 0; k < ca->getNumOperands(); ++k) initObj(o, off + sl->getElementOffset(k), ca->getOperand(k));
      } else {
        Type *et = ty->isArrayTy() ? ty->getArrayElementType() : cast<VectorType>(ty)->getElementType();
        uint64_t es = DL->getTypeAllocSize(et);
        for (unsigned k = 0; k < ca->getNumOperands(); ++k) initObj(o, off + k * es, ca->getOperand(k));
      }
      return;
    }
    if (isa<UndefValue>(c)) return;
    rawStore(o, off, constant(c), DL->getTypeStoreSize(ty));
  }

  // -------- values
  Val val(const Frame &f, const Value *v)
  {
    if (auto *c = dyn_cast<Constant>(v)) return constant(c);
    auto &fi = getInfo(f.f);
    auto it = fi.slot.find(v);
    if (it == fi.slot.end()) {
      if (isa<MetadataAsValue>(v)) return Val();
      throw Unsupported{ "value without slot" };
    }
    return (*f.regs)[it->second];
  }
  void setReg(Frame &f, const Instruction *i, Val v)
  {
    auto &fi = getInfo(f.f);
    if (f.regs.use_count() > 1) f.regs = std::make_shared<vector<Val>>(*f.regs);
    (*f.regs)[fi.slot[i]] = std::move(v);
  }

  // -------- integer ops
  Val intBin(State &S, unsigned op, const Val &a, const Val &b, const Instruction *I)
  {
    if (a.k == Val::Undef || b.k == Val::Undef) {
      // whatever the undefined value is, these results do not depend on it
      const Val &d = a.k == Val::Undef ? b : a;
      if (d.k == Val::Int && op == Instruction::And && d.i == 0) return d;
      if (d.k == Val::Int && op == Instruction::Or && d.w <= 64 && d.i == ((u128(1) << d.w) - 1)) return d;
      return Val();
    }
    unsigned w = a.k == Val::Int || a.k == Val::Sym ? a.w : b.w;
    if (a.isFloat() || b.isFloat()) return fpBitTrick(op, a, b);
    if (a.k == Val::Int && b.k == Val::Int) {
      u128 x = a.i, y = b.i;
      i128 sx = sext(x, w), sy = sext(y, w);
      switch (op) {
      case Instruction::Add: return Val::mkInt(x + y, w);
      case Instruction::Sub: return Val::mkInt(x - y, w);
      case Instruction::Mul: return Val::mkInt(x * y, w);
      case Instruction::UDiv:
      case Instruction::URem:
      case Instruction::SDiv:
      case Instruction::SRem:
        if (y == 0) {
          fail(S, "arith", "integer division by zero", C->bool_val(true));
          throw PathEnd{ "div by zero" };
        }
        if (op == Instruction::UDiv) return Val::mkInt(x / y, w);
        if (op == Instruction::URem) return Val::mkInt(x % y, w);
        if (op == Instruction::SDiv) return Val::mkInt((u128)(sx / sy), w);
        return Val::mkInt((u128)(sx % sy), w);
      case Instruction::And: return Val::mkInt(x & y, w);
      case Instruction::Or: return Val::mkInt(x | y, w);
      case Instruction::Xor: return Val::mkInt(x ^ y, w);
      case Instruction::Shl: return y >= w ? Val() : Val::mkInt(x << (unsigned)y, w);
      case Instruction::LShr: return y >= w ? Val() : Val::mkInt(x >> (unsigned)y, w);
      case Instruction::AShr: return y >= w ? Val() : Val::mkInt((u128)(sx >> (unsigned)y), w);
      }
      throw Unsupported{ "int op" };
    }
    // peepholes
    auto isC = [](const Val &v, u128 x) { return v.k == Val::Int && v.i == x; };
    if ((op == Instruction::Add || op == Instruction::Or || op == Instruction::Xor) && isC(a, 0)) return b;
    if ((op == Instruction::Add || op == Instruction::Sub || op == Instruction::Or || op == Instruction::Xor
          || op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr)
        && isC(b, 0))
      return a;
    if (op == Instruction::Mul && isC(a, 1)) return b;
    if ((op == Instruction::Mul || op == Instruction::SDiv || op == Instruction::UDiv) && isC(b, 1)) return a;
    if ((op == Instruction::Mul || op == Instruction::And) && (isC(a, 0) || isC(b, 0))) return Val::mkInt(0, w);
    z3::expr x = toBV(a), y = toBV(b);
    switch (op) {
    case Instruction::Add: return Val::mkBV(x + y);
    case Instruction::Sub: return Val::mkBV(x - y);
    case Instruction::Mul: return Val::mkBV(x * y);
    case Instruction::And:
      if (w == 1) return Val::mkBV((x & y).simplify());
      return Val::mkBV(x & y);
    case Instruction::Or:
      if (w == 1) return Val::mkBV((x | y).simplify());
      return Val::mkBV(x | y);
    case Instruction::Xor:
      if (w == 1) return Val::mkBV((x ^ y).simplify());
      return Val::mkBV(x ^ y);
    case Instruction::Shl: return Val::mkBV(z3::shl(x, y));
    case Instruction::LShr: return Val::mkBV(z3::lshr(x, y));
    case Instruction::AShr: return Val::mkBV(z3::ashr(x, y));
    case Instruction::UDiv:
    case Instruction::URem:
    case Instruction::SDiv:
    case Instruction::SRem: {
      if (b.k != Val::Int || b.i == 0) {
        if (!decide(S, y != C->bv_val(0, w))) {
          fail(S, "arith", "integer division by zero", C->bool_val(true));
          throw PathEnd{ "div by zero" };
        }
      }
      if (op == Instruction::UDiv) return Val::mkBV(z3::udiv(x, y));
      if (op == Instruction::URem) return Val::mkBV(z3::urem(x, y));
      if (op == Instruction::SDiv) return Val::mkBV(x / y);
      return Val::mkBV(z3::srem(x, y));
    }
    }
    throw Unsupported{ "int op" };
  }
  Val fpBitTrick(unsigned op, const Val &a, const Val &b)
  {
    // fabs / fneg through masks
    const Val &f = a.isFloat() ? a : b, &m = a.isFloat() ? b : a;
    if (m.k == Val::Int) {
      if (op == Instruction::And && m.i == 0x7fffffffffffffffull) return fabsV(f);
      if (op == Instruction::Xor && m.i == 0x8000000000000000ull) return fneg(f);
    }
    throw Unsupported{ "bit operation on a float" };
  }
  Val fneg(const Val &a)
  {
    if (a.k == Val::Undef) return a;
    if (a.k == Val::Fp) return Val::mkFp(-a.d, a.w);
    return realVal(-toReal(a), a.w);
  }
  Val fabsV(const Val &a)
  {
    if (a.k == Val::Undef) return a;
    if (a.k == Val::Fp) return Val::mkFp(std::fabs(a.d), a.w);
    z3::expr e = toReal(a).simplify();
    return realVal(z3::ite(e >= 0, e, -e), a.w);
  }
  static Val foldNum(const z3::expr &e, unsigned w)
  {
    z3::expr s = e;
    return Val::mkReal(s, w);
  }
  static bool numeral(const Val &v) { return v.k == Val::Fp || (v.k == Val::Sym && v.isReal && v.e->is_numeral()); }
  Val fpBin(State &S, unsigned op, const Val &a0, const Val &b0)
  {
    if (a0.k == Val::Undef || b0.k == Val::Undef) return Val();
    Val a = a0, b = b0;
    unsigned w = std::max(a.w, b.w);
    if (a.k == Val::Fp && b.k == Val::Fp) {
      double x = a.d, y = b.d, r = 0;
      bool exact = false;
      if (w == 32) {
        // float arithmetic: exact in double for + - *, then check representability
        double z = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : x / y;
        r = (float)z;
        exact = r == z || !std::isfinite(z);
        if (op == Instruction::FDiv) exact = exact && std::fma(z, y, -x) == 0;
        if (exact || !std::isfinite(z)) return Val::mkFp(r, 32);
      } else {
        switch (op) {
        case Instruction::FAdd:
        case Instruction::FSub: {
          double yy = op == Instruction::FSub ? -y : y;
          r = x + yy;
          double bb = r - x;
          double err = (x - (r - bb)) + (yy - bb);
          exact = err == 0 || !std::isfinite(r);
          break;
        }
        case Instruction::FMul:
          r = x * y;
          exact = !std::isfinite(r) || (std::fma(x, y, -r) == 0 && (r == 0 || std::fabs(r) > 1e-290));
          if (r == 0 && x != 0 && y != 0) exact = false;
          break;
        case Instruction::FDiv:
          r = x / y;
          exact = !std::isfinite(r) || std::fma(r, y, -x) == 0;
          break;
        case Instruction::FRem:
          r = std::fmod(x, y);
          exact = true;
          break;
        }
        if (exact) return Val::mkFp(r, w);
      }
    }
    auto isC = [](const Val &v, double x) { return v.k == Val::Fp && v.d == x; };
    if (op == Instruction::FAdd && isC(a, 0)) return b;
    if ((op == Instruction::FAdd || op == Instruction::FSub) && isC(b, 0)) return a;
    if (op == Instruction::FMul && (isC(a, 0) || isC(b, 0))) return Val::mkFp(0, w);
    if (op == Instruction::FMul && isC(a, 1)) return b;
    if ((op == Instruction::FMul || op == Instruction::FDiv) && isC(b, 1)) return a;
    if (op == Instruction::FDiv && b.k == Val::Fp && std::isinf(b.d)) return Val::mkFp(0, w);
    z3::expr x = toReal(a), y = toReal(b);
    bool num = numeral(a) && numeral(b);
    z3::expr r(*C);
    switch (op) {
    case Instruction::FAdd: r = x + y; break;
    case Instruction::FSub:
      if (z3::eq(x, y)) return Val::mkFp(0, w);
      r = x - y;
      break;
    case Instruction::FMul: r = x * y; break;
    case Instruction::FDiv:
      if (!y.is_numeral()) {
        if (!decide(S, y != 0)) {
          if (S.allowDiv0) {
            ++nCuts;
            throw PathEnd{ "division by zero (excluded)" };
          }
          fail(S, "arith", "floating-point division by zero", C->bool_val(true));
          throw PathEnd{ "division by zero" };
        }
      } else if (z3::eq(y.simplify(), C->real_val(0))) {
        if (S.allowDiv0) {
          ++nCuts;
          throw PathEnd{ "division by zero (excluded)" };
        }
        fail(S, "arith", "floating-point division by zero", C->bool_val(true));
        throw PathEnd{ "division by zero" };
      }
      r = x / y;
      break;
    default: throw Unsupported{ "fp op" };
    }
    if (num) r = r.simplify();
    return realVal(r, w);
  }
  Val boolVal(const z3::expr &c0)
  {
    z3::expr c = c0.simplify();
    if (c.is_true()) return Val::mkInt(1, 1);
    if (c.is_false()) return Val::mkInt(0, 1);
    return Val::mkBV(z3::ite(c, C->bv_val(1, 1), C->bv_val(0, 1)));
  }
  static z3::expr cond(const Val &v)
  {
    if (v.k == Val::Int) return C->bool_val(v.i != 0);
    if (v.k == Val::Undef) throw Unsupported{ "branch on an uninitialised value" };
    const z3::expr &e = *v.e;
    if (e.is_app() && e.decl().decl_kind() == Z3_OP_ITE && e.arg(1).is_numeral() && e.arg(2).is_numeral()) {
      uint64_t a = e.arg(1).get_numeral_uint64(), b = e.arg(2).get_numeral_uint64();
      if (a == 1 && b == 0) return e.arg(0);
      if (a == 0 && b == 1) return !e.arg(0);
    }
    return e == C->bv_val(1, v.w);
  }
  Val icmp(unsigned pred, const Val &a, const Val &b)
  {
    if (a.k == Val::Undef || b.k == Val::Undef) return Val();
    unsigned w = a.w;
    if (a.k == Val::Int && b.k == Val::Int) {
      i128 x = sext(a.i, w), y = sext(b.i, w);
      bool r = false;
      switch (pred) {
      case CmpInst::ICMP_EQ: r = a.i == b.i; break;
      case CmpInst::ICMP_NE: r = a.i != b.i; break;
      case CmpInst::ICMP_UGT: r = a.i > b.i; break;
      case CmpInst::ICMP_UGE: r = a.i >= b.i; break;
      case CmpInst::ICMP_ULT: r = a.i < b.i; break;
      case CmpInst::ICMP_ULE: r = a.i <= b.i; break;
      case CmpInst::ICMP_SGT: r = x > y; break;
      case CmpInst::ICMP_SGE: r = x >= y; break;
      case CmpInst::ICMP_SLT: r = x < y; break;
      case CmpInst::ICMP_SLE: r = x <= y; break;
      }
      return Val::mkInt(r, 1);
    }
    if (a.isFloat() || b.isFloat()) {
      // sign-bit test or exact bit equality of a double
      const Val &f = a.isFloat() ? a : b;
      if (a.isFloat() && b.k == Val::Int && pred == CmpInst::ICMP_SLT && b.i == 0) return boolVal(toReal(f) < 0);
      if (a.isFloat() && b.isFloat() && (pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE)) {
        z3::expr c = toReal(a) == toReal(b);
        return boolVal(pred == CmpInst::ICMP_EQ ? c : !c);
      }
      throw Unsupported{ "integer compare of float bits" };
    }
    z3::expr x = toBV(a), y = toBV(b);
    z3::expr c(*C);
    switch (pred) {
    case CmpInst::ICMP_EQ: c = x == y; break;
    case CmpInst::ICMP_NE: c = x != y; break;
    case CmpInst::ICMP_UGT: c = z3::ugt(x, y); break;
    case CmpInst::ICMP_UGE: c = z3::uge(x, y); break;
    case CmpInst::ICMP_ULT: c = z3::ult(x, y); break;
    case CmpInst::ICMP_ULE: c = z3::ule(x, y); break;
    case CmpInst::ICMP_SGT: c = x > y; break;
    case CmpInst::ICMP_SGE: c = x >= y; break;
    case CmpInst::ICMP_SLT: c = x < y; break;
    case CmpInst::ICMP_SLE: c = x <= y; break;
    default: throw Unsupported{ "icmp" };
    }
    return boolVal(c);
  }
  Val fcmp(unsigned pred, const Val &a, const Val &b)
  {
    if (a.k == Val::Undef || b.k == Val::Undef) return Val();
    if (pred == CmpInst::FCMP_TRUE) return Val::mkInt(1, 1);
    if (pred == CmpInst::FCMP_FALSE) return Val::mkInt(0, 1);
    if (a.k == Val::Fp && b.k == Val::Fp) {
      double x = a.d, y = b.d;
      bool un = std::isnan(x) || std::isnan(y);
      bool r = false;
      switch (pred) {
      case CmpInst::FCMP_OEQ: r = !un && x == y; break;
      case CmpInst::FCMP_ONE: r = !un && x != y; break;
      case CmpInst::FCMP_OGT: r = !un && x > y; break;
      case CmpInst::FCMP_OGE: r = !un && x >= y; break;
      case CmpInst::FCMP_OLT: r = !un && x < y; break;
      case CmpInst::FCMP_OLE: r = !un && x <= y; break;
      case CmpInst::FCMP_ORD: r = !un; break;
      case CmpInst::FCMP_UNO: r = un; break;
      case CmpInst::FCMP_UEQ: r = un || x == y; break;
      case CmpInst::FCMP_UNE: r = un || x != y; break;
      case CmpInst::FCMP_UGT: r = un || x > y; break;
      case CmpInst::FCMP_UGE: r = un || x >= y; break;
      case CmpInst::FCMP_ULT: r = un || x < y; break;
      case CmpInst::FCMP_ULE: r = un || x <= y; break;
      }
      return Val::mkInt(r, 1);
    }
    if (pred == CmpInst::FCMP_ORD || pred == CmpInst::FCMP_UNO) return Val::mkInt(pred == CmpInst::FCMP_ORD, 1);
    // symbolic reals are finite
    for (int side = 0; side < 2; ++side) {
      const Val &f = side ? b : a;
      if (f.k == Val::Fp && (std::isinf(f.d) || std::isnan(f.d))) {
        if (std::isnan(f.d)) {
          bool r = pred >= CmpInst::FCMP_UEQ;
          return Val::mkInt(r, 1);
        }
        bool aGreater = side == 0 ? f.d > 0 : f.d < 0;// is a > b?
        switch (pred) {
        case CmpInst::FCMP_OEQ:
        case CmpInst::FCMP_UEQ: return Val::mkInt(0, 1);
        case CmpInst::FCMP_ONE:
        case CmpInst::FCMP_UNE: return Val::mkInt(1, 1);
        case CmpInst::FCMP_OGT:
        case CmpInst::FCMP_OGE:
        case CmpInst::FCMP_UGT:
        case CmpInst::FCMP_UGE: return Val::mkInt(aGreater, 1);
        default: return Val::mkInt(!aGreater, 1);
        }
      }
    }
    z3::expr x = toReal(a), y = toReal(b);
    switch (pred) {
    case CmpInst::FCMP_OEQ:
    case CmpInst::FCMP_UEQ: return boolVal(x == y);
    case CmpInst::FCMP_ONE:
    case CmpInst::FCMP_UNE: return boolVal(x != y);
    case CmpInst::FCMP_OGT:
    case CmpInst::FCMP_UGT: return boolVal(x > y);
    case CmpInst::FCMP_OGE:
    case CmpInst::FCMP_UGE: return boolVal(x >= y);
    case CmpInst::FCMP_OLT:
    case CmpInst::FCMP_ULT: return boolVal(x < y);
    default: return boolVal(x <= y);
    }
  }
  Val cast_(State &S, const CastInst *ci, const Val &v, Type *from, Type *to)
  {
    if (auto *vt = dyn_cast<FixedVectorType>(to)) {
      if (ci->getOpcode() == Instruction::BitCast) {
        if (v.k == Val::Agg && v.agg->size() == vt->getNumElements()) return v;
        throw Unsupported{ "vector bitcast" };
      }
      vector<Val> r;
      for (unsigned k = 0; k < vt->getNumElements(); ++k)
        r.push_back(cast_(S, ci, (*v.agg)[k], cast<VectorType>(from)->getElementType(), vt->getElementType()));
      return Val::mkAgg(r);
    }
    if (v.k == Val::Undef) return v;
    unsigned w = to->isPointerTy() ? 64 : to->isIntegerTy() ? to->getIntegerBitWidth() : to->isFloatTy() ? 32 : 64;
    switch (ci->getOpcode()) {
    case Instruction::Trunc:
      if (v.k == Val::Int) return Val::mkInt(v.i, w);
      if (v.k == Val::Agg && w == 64) return (*v.agg)[0];
      return Val::mkBV(toBV(v).extract(w - 1, 0));
    case Instruction::ZExt:
      if (v.k == Val::Int) return Val::mkInt(v.i, w);
      return Val::mkBV(z3::zext(toBV(v), w - v.w));
    case Instruction::SExt:
      if (v.k == Val::Int) return Val::mkInt((u128)sext(v.i, v.w), w);
      return Val::mkBV(z3::sext(toBV(v), w - v.w));
    case Instruction::FPTrunc:
    case Instruction::FPExt:
      if (v.k == Val::Fp) return Val::mkFp(v.d, w);
      {
        Val r = v;
        r.w = w;
        return r;
      }
    case Instruction::SIToFP:
    case Instruction::UIToFP: {
      if (v.k == Val::Int) {
        double d = ci->getOpcode() == Instruction::SIToFP ? (double)sext(v.i, v.w) : (double)v.i;
        return Val::mkFp(d, w);
      }
      z3::expr n(*C, Z3_mk_bv2int(*C, toBV(v), ci->getOpcode() == Instruction::SIToFP));
      return realVal(z3::to_real(n), w);
    }
    case Instruction::FPToSI:
    case Instruction::FPToUI: {
      if (v.k == Val::Fp) return Val::mkInt((u128)(i128)v.d, w);
      z3::expr e = toReal(v);
      z3::expr fl(*C, Z3_mk_real2int(*C, e));
      z3::expr nfl(*C, Z3_mk_real2int(*C, -e));
      z3::expr t = z3::ite(e >= 0, fl, -nfl);
      return Val::mkBV(z3::expr(*C, Z3_mk_int2bv(*C, w, t)));
    }
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
      if (v.k == Val::Int) return Val::mkInt(v.i, w);
      if (v.w == w) return v;
      if (v.w > w) return Val::mkBV(toBV(v).extract(w - 1, 0));
      return Val::mkBV(z3::zext(toBV(v), w - v.w));
    case Instruction::BitCast: {
      if (v.k == Val::Agg) throw Unsupported{ "bitcast of a vector to a scalar" };
      bool tf = to->isFloatingPointTy();
      if (v.k == Val::Int && tf) {
        if (w == 32) {
          uint32_t x = (uint32_t)v.i;
          float f;
          memcpy(&f, &x, 4);
          return Val::mkFp(f, 32);
        }
        uint64_t x = (uint64_t)v.i;
        double d;
        memcpy(&d, &x, 8);
        return Val::mkFp(d, 64);
      }
      if (v.k == Val::Fp && !tf) {
        if (w == 32) {
          float f = (float)v.d;
          uint32_t x;
          memcpy(&x, &f, 4);
          return Val::mkInt(x, 32);
        }
        uint64_t x;
        memcpy(&x, &v.d, 8);
        return Val::mkInt(x, 64);
      }
      return v;
    }
    default: throw Unsupported{ "cast" };
    }
  }
  template<class F> Val lift2(const Val &a, const Val &b, F f)
  {
    if (a.k == Val::Agg || b.k == Val::Agg) {
      size_t n = a.k == Val::Agg ? a.agg->size() : b.agg->size();
      vector<Val> r;
      for (size_t k = 0; k < n; ++k) r.push_back(f(a.k == Val::Agg ? (*a.agg)[k] : Val(), b.k == Val::Agg ? (*b.agg)[k] : Val()));
      return Val::mkAgg(r);
    }
    return f(a, b);
  }
  // integer-typed view of a loaded value (a float loaded through an integer type stays a float)
  Val asType(const Val &v, Type *ty)
  {
    if (ty->isFloatingPointTy() && v.k == Val::Int) {
      if (ty->isDoubleTy()) {
        uint64_t x = (uint64_t)v.i;
        double d;
        memcpy(&d, &x, 8);
        return Val::mkFp(d, 64);
      }
    }
    return v;
  }

  // -------- dynamic_cast through Itanium RTTI
  uint64_t rd(State &S, uint64_t a)
  {
    Val v = load(S, Val::mkInt(a, 64), Type::getInt64Ty(M.getContext()));
    if (v.k != Val::Int) throw Unsupported{ "rtti read" };
    return (uint64_t)v.i;
  }
  string symAt(uint64_t a)
  {
    uint64_t best = 0;
    string r;
    for (auto &kv : gaddr)
      if (kv.second <= a && kv.second > best) {
        best = kv.second;
        r = kv.first->getName().str();
      }
    return r;
  }
  bool upcast(State &S, uint64_t ti, uint64_t target, int64_t off, vector<int64_t> &outs)
  {
    bool any = false;
    if (ti == target) {
      outs.push_back(off);
      any = true;
    }
    string kind = symAt(rd(S, ti));
    if (kind.find("__si_class_type_info") != string::npos) any |= upcast(S, rd(S, ti + 16), target, off, outs);
    else if (kind.find("__vmi_class_type_info") != string::npos) {
      uint32_t n = (uint32_t)(rd(S, ti + 16) >> 32);
      for (uint32_t k = 0; k < n; ++k) {
        uint64_t b = rd(S, ti + 24 + 16 * k);
        int64_t fl = (int64_t)rd(S, ti + 32 + 16 * k);
        if (fl & 1) throw Unsupported{ "virtual base" };
        any |= upcast(S, b, target, off + (fl >> 8), outs);
      }
    }
    return any;
  }

  // -------- calls
  bool external(State &S, const CallBase *cb, const Function *f, vector<Val> &a, Val &ret)
  {
    StringRef n = f->getName();
    auto is = [&](const char *s) { return n == s; };
    Type *rt = f->getReturnType();
    auto i64 = Type::getInt64Ty(M.getContext());
    // ---- harness API
    if (n.starts_with("sx_")) {
      if (is("sx_real")) {
        string nm = uniq(S, cstr(S, a[0]));
        z3::expr e = C->real_const(nm.c_str());
        S.syms.push_back({ nm, e });
        ret = Val::mkReal(e);
        return true;
      }
      if (is("sx_i64") || is("sx_i32") || is("sx_u8")) {
        unsigned w = is("sx_i64") ? 64 : is("sx_i32") ? 32 : 8;
        string nm = uniq(S, cstr(S, a[0]));
        z3::expr e = C->bv_const(nm.c_str(), w);
        S.syms.push_back({ nm, e });
        ret = Val::mkBV(e);
        return true;
      }
      if (is("sx_choice")) {
        // all values are explored; the symbol is declared once per path
        string nm = cstr(S, a[0]);
        int lo = (int)sext(concretize(S, a[1]), 32), hi = (int)sext(concretize(S, a[2]), 32);
        nm = uniq(S, nm);
        z3::expr e = C->bv_const(nm.c_str(), 32);
        S.syms.push_back({ nm, e });
        for (int v = hi; v > lo; --v) {
          State alt = S;
          alt.pc.push_back(e == C->bv_val(v, 32));
          alt.model.reset();
          ++nForks;
          alt.st.back();
          finishCall(alt, cb, Val::mkInt((u128)(i128)v, 32));
          work.push_back(std::move(alt));
        }
        S.pc.push_back(e == C->bv_val(lo, 32));
        S.model.reset();
        ret = Val::mkInt((u128)(i128)lo, 32);
        return true;
      }
      if (is("sx_assume")) {
        z3::expr c = cond(a[0]).simplify();
        if (c.is_true()) return true;
        if (c.is_false()) throw PathEnd{ "assume" };
        S.pc.push_back(c);
        if (S.model && !S.model->eval(c, true).is_true()) S.model.reset();
        if (!S.model) {
          std::shared_ptr<z3::model> m;
          vector<z3::expr> pcm(S.pc.begin(), S.pc.end() - 1);
          if (check(pcm, c, &m) == z3::unsat) throw PathEnd{ "assume" };
        }
        return true;
      }
      if (is("sx_assert")) {
        string msg = cstr(S, a[1]);
        if (a[0].k == Val::Undef) {
          fail(S, "assert", msg + " (uninitialised)", C->bool_val(true));
          throw PathEnd{ "undef" };
        }
        doAssert(S, cond(a[0]), msg);
        return true;
      }
      if (is("sx_assert_eq") || is("sx_assert_le")) {
        string msg = cstr(S, a[2]);
        if (a[0].k == Val::Undef || a[1].k == Val::Undef) {
          fail(S, "assert", msg + " (uninitialised value)", C->bool_val(true));
          throw PathEnd{ "undef" };
        }
        if (a[0].k == Val::Fp && a[1].k == Val::Fp) {
          bool ok = is("sx_assert_eq") ? a[0].d == a[1].d : a[0].d <= a[1].d;
          doAssert(S, C->bool_val(ok), msg);
          return true;
        }
        z3::expr x = toReal(a[0]), y = toReal(a[1]);
        if (is("sx_assert_eq")) {
          if (z3::eq(x, y)) {
            assertCount[msg]++;
            assertSolver[msg]++;
            ++nSolverAsserts;
            ++nQueries;
            return true;
          }
          z3::expr d = norm(x - y);
          if (d.is_numeral()) {
            assertSolver[msg]++;
            ++nSolverAsserts;
            ++nQueries;
            doAssert(S, d == 0, msg);
          } else
            doAssert(S, d == 0, msg);
        } else
          doAssert(S, x <= y, msg);
        return true;
      }
      if (is("sx_fma")) {
        // a*b+c of constants in double precision
        if (a[0].k != Val::Fp || a[1].k != Val::Fp || a[2].k != Val::Fp) throw Unsupported{ "sx_fma of symbolic values" };
        ret = Val::mkFp(std::fma(a[0].d, a[1].d, a[2].d), 64);
        return true;
      }
      if (is("sx_same")) {
        // whether the two values are provably equal along the path
        bool same = false;
        if (a[0].k == Val::Fp && a[1].k == Val::Fp)
          same = a[0].d == a[1].d;
        else {
          z3::expr x = toReal(a[0]), y = toReal(a[1]);
          same = z3::eq(x, y);
          if (!same) {
            z3::expr nc = !(norm(x - y) == 0);
            nc = nc.simplify();
            std::shared_ptr<z3::model> m;
            same = nc.is_false() || (!nc.is_true() && check(S.pc, nc, &m) == z3::unsat);
          }
        }
        ret = Val::mkInt(same ? 1 : 0, 32);
        return true;
      }
      if (is("sx_reach")) {
        string msg = cstr(S, a[0]);
        if (!reached.count(msg)) {
          bool ok;
          auto m = fullModel(S, C->bool_val(true), &ok);
          if (ok) {
            m["__ok"] = "1";
            reached[msg] = m;
          }
        }
        return true;
      }
      if (is("sx_symbolic")) {
        ret = Val::mkInt(1, 32);
        return true;
      }
      if (is("sx_allow_div0")) {
        S.allowDiv0 = concretize(S, a[0]) != 0;
        return true;
      }
      if (is("sx_diff")) {
        z3::expr x = toReal(a[1]);
        if (a[0].k == Val::Fp) {
          ret = Val::mkFp(0);
          return true;
        }
        std::unordered_map<unsigned, z3::expr> memo;
        ret = Val::mkReal(diff(toReal(a[0]), x, memo));
        return true;
      }
      if (is("sx_concretize")) {
        ret = Val::mkInt(concretize(S, a[0]), 64);
        return true;
      }
      if (is("sx_assume_unit")) return true;
      if (is("sx_cut")) throw PathEnd{ "cut" };
    }
    // ---- allocation
    if (is("malloc") || n.starts_with("_Znw") || n.starts_with("_Zna")) {
      ret = Val::mkInt(alloc(S, (uint64_t)concretize(S, a[0]), "heap"), 64);
      return true;
    }
    if (is("calloc")) {
      uint64_t sz = (uint64_t)(concretize(S, a[0]) * concretize(S, a[1]));
      uint64_t p = alloc(S, sz, "heap");
      auto &o = *S.mem[p];
      std::fill(o.tag.begin(), o.tag.end(), 1);
      ret = Val::mkInt(p, 64);
      return true;
    }
    if (is("free") || n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv")) {
      uint64_t p = (uint64_t)concretize(S, a[0]);
      if (p) {
        if (!S.mem.count(p)) memErr(S, "invalid or double free");
        S.mem.erase(p);
      }
      return true;
    }
    if (is("__cxa_allocate_exception")) {
      ret = Val::mkInt(alloc(S, (uint64_t)a[0].i, "exception"), 64);
      return true;
    }
    if (is("__cxa_throw")) {
      auto *g = dyn_cast<GlobalValue>(cb->getArgOperand(1)->stripPointerCasts());
      raise(S, cb, (uint64_t)concretize(S, a[0]), g ? g->getName().str() : string("?"));
    }
    if (n.starts_with("_ZSt") && n.contains("__throw_")) {
      static const std::pair<const char *, const char *> known[] = { { "__throw_length_error", "_ZTISt12length_error" }, { "__throw_out_of_range", "_ZTISt12out_of_range" },
        { "__throw_bad_alloc", "_ZTISt9bad_alloc" }, { "__throw_logic_error", "_ZTISt11logic_error" }, { "__throw_invalid_argument", "_ZTISt16invalid_argument" },
        { "__throw_bad_array_new_length", "_ZTISt20bad_array_new_length" }, { "__throw_bad_function_call", "_ZTISt17bad_function_call" },
        { "__throw_bad_optional_access", "_ZTISt19bad_optional_access" }, { "__throw_bad_variant_access", "_ZTISt18bad_variant_access" }, { "__throw_bad_cast", "_ZTISt8bad_cast" } };
      for (auto &k : known)
        if (n.contains(k.first)) raise(S, cb, alloc(S, 64, "exception"), k.second);
      fail(S, "exception", "exception thrown: " + llvm::demangle(n.str()), C->bool_val(true));
      throw PathEnd{ "throw" };
    }
    if (is("__cxa_begin_catch")) {
      S.caught.push_back({ S.exPtr, S.exType });
      ret = a[0];
      return true;
    }
    if (is("__cxa_end_catch")) {
      if (!S.caught.empty()) S.caught.pop_back();
      return true;
    }
    if (is("__cxa_free_exception")) return true;
    if (is("__cxa_rethrow")) {
      auto x = S.caught.back();
      raise(S, cb, x.first, x.second);
    }
    if (n.starts_with("_ZNSt") && (n.contains("errorC") || n.contains("errorD") || n.contains("exceptionD") || n.contains("argumentC") || n.contains("argumentD") || n.contains("rangeC") || n.contains("rangeD") || n.contains("bad_allocD"))) return true;
    if (is("_ZSt9terminatev")) {
      fail(S, "exception", "exception thrown: " + llvm::demangle(n.str()), C->bool_val(true));
      throw PathEnd{ "throw" };
    }
    if (is("abort") || is("__cxa_pure_virtual") || is("exit")) {
      fail(S, "abort", n.str() + " called", C->bool_val(true));
      throw PathEnd{ "abort" };
    }
    if (is("__assert_fail")) {
      fail(S, "code-assert", "assertion in the code fails: " + cstr(S, a[0]), C->bool_val(true));
      throw PathEnd{ "assert" };
    }
    if (is("_ZSt21__glibcxx_assert_failPKciS0_S0_")) {
      fail(S, "code-assert", "libstdc++ precondition fails: " + cstr(S, a[3]), C->bool_val(true));
      throw PathEnd{ "assert" };
    }
    if (is("__cxa_guard_acquire")) {
      Val g = load(S, a[0], Type::getInt8Ty(M.getContext()));
      ret = Val::mkInt(g.k == Val::Int && g.i ? 0 : 1, 32);
      return true;
    }
    if (is("__cxa_guard_release")) {
      store(S, a[0], Val::mkInt(1, 8), Type::getInt8Ty(M.getContext()));
      return true;
    }
    if (is("__cxa_atexit") || is("__cxa_thread_atexit")) {
      ret = Val::mkInt(0, 32);
      return true;
    }
    if (n.starts_with("_ZNSt8ios_base4Init")) return true;
    if (is("pthread_mutex_lock") || is("pthread_mutex_unlock") || is("pthread_once")) {
      ret = Val::mkInt(0, 32);
      return true;
    }
    if (is("__dynamic_cast")) {
      uint64_t obj = (uint64_t)concretize(S, a[0]), dstT = (uint64_t)concretize(S, a[2]), srcT = (uint64_t)concretize(S, a[1]);
      uint64_t vp = rd(S, obj);
      int64_t top = (int64_t)rd(S, vp - 16);
      uint64_t ti = rd(S, vp - 8);
      uint64_t full = obj + top;
      vector<int64_t> dsts;
      upcast(S, ti, dstT, 0, dsts);
      uint64_t r = 0;
      for (auto d : dsts) {
        vector<int64_t> srcs;
        upcast(S, dstT, srcT, 0, srcs);
        for (auto s : srcs)
          if (full + d + s == obj) r = full + d;
      }
      if (!r && dsts.size() == 1) r = full + dsts[0];
      ret = Val::mkInt(r, 64);
      return true;
    }
    // ---- mem / str
    if (is("memcpy") || is("memmove")) {
      copyMem(S, (uint64_t)concretize(S, a[0]), (uint64_t)concretize(S, a[1]), (uint64_t)concretize(S, a[2]));
      ret = a[0];
      return true;
    }
    if (is("strlen")) {
      ret = Val::mkInt(cstr(S, a[0]).size(), 64);
      return true;
    }
    if (is("memcmp") || is("bcmp")) {
      uint64_t len = (uint64_t)concretize(S, a[2]);
      z3::expr r = C->bv_val(0, 32);
      bool sym = false;
      int cr = 0;
      Type *i8 = Type::getInt8Ty(M.getContext());
      vector<std::pair<Val, Val>> bs;
      for (uint64_t k = 0; k < len; ++k) {
        Val x = load(S, addPtr(a[0], k), i8), y = load(S, addPtr(a[1], k), i8);
        if (x.k != Val::Int || y.k != Val::Int) sym = true;
        bs.push_back({ x, y });
      }
      if (!sym) {
        for (auto &p : bs)
          if (p.first.i != p.second.i) {
            cr = p.first.i < p.second.i ? -1 : 1;
            break;
          }
        ret = Val::mkInt((u128)(i128)cr, 32);
        return true;
      }
      for (auto it = bs.rbegin(); it != bs.rend(); ++it) {
        z3::expr x = toBV(it->first), y = toBV(it->second);
        r = z3::ite(x == y, r, z3::ite(z3::ult(x, y), C->bv_val(-1, 32), C->bv_val(1, 32)));
      }
      ret = Val::mkBV(r);
      return true;
    }
    // ---- libm
    auto m1 = [&](double (*fn)(double)) {
      if (a[0].k == Val::Fp) {
        ret = Val::mkFp(fn(a[0].d), a[0].w);
        return true;
      }
      return false;
    };
    if (is("sin") || is("cos") || is("sinf") || is("cosf")) {
      if (a[0].k == Val::Fp && a[0].d == 0) {
        ret = Val::mkFp(n.starts_with("sin") ? 0.0 : 1.0, a[0].w);
        return true;
      }
      z3::expr s(*C), c(*C);
      trig(S, toReal(a[0]), s, c);
      ret = Val::mkReal(n.starts_with("sin") ? s : c, a[0].w);
      return true;
    }
    if (is("sqrt")) {
      ret = sqrtV(S, a[0]);
      return true;
    }
    if (is("fabs")) {
      ret = fabsV(a[0]);
      return true;
    }
    if (is("floor")) {
      ret = floorV(a[0]);
      return true;
    }
    if (is("ceil")) {
      ret = fneg(floorV(fneg(a[0])));
      return true;
    }
    if (is("fmin") || is("fmax")) {
      ret = minmax(a[0], a[1], is("fmax"));
      return true;
    }
    if (is("pow")) {
      if (a[1].k == Val::Fp && a[1].d == std::floor(a[1].d) && std::fabs(a[1].d) < 64) {
        int e = (int)a[1].d;
        Val r = Val::mkFp(1.0);
        for (int k = 0; k < std::abs(e); ++k) r = fpBin(S, Instruction::FMul, r, a[0]);
        if (e < 0) r = fpBin(S, Instruction::FDiv, Val::mkFp(1.0), r);
        ret = r;
        return true;
      }
      if (a[0].k == Val::Fp && a[1].k == Val::Fp) {
        ret = Val::mkFp(std::pow(a[0].d, a[1].d));
        return true;
      }
    }
    if (is("exp") && m1(std::exp)) return true;
    if (is("log") && m1(std::log)) return true;
    if (is("tanh") && m1(std::tanh)) return true;
    if (is("sinh") && m1(std::sinh)) return true;
    if (is("cosh") && m1(std::cosh)) return true;
    if (is("acos") && m1(std::acos)) return true;
    if (is("round") && m1(std::round)) return true;
    if (is("printf") || is("puts") || is("fprintf") || is("putchar") || is("fflush") || is("fputs") || is("fwrite")) {
      ret = Val::mkInt(0, 32);
      if (rt->isIntegerTy(64)) ret = Val::mkInt(0, 64);
      return true;
    }
    (void)i64;
    return false;
  }
  Val floorV(const Val &a)
  {
    if (a.k == Val::Undef) return a;
    if (a.k == Val::Fp) return Val::mkFp(std::floor(a.d), a.w);
    z3::expr fl(*C, Z3_mk_real2int(*C, toReal(a)));
    return realVal(z3::to_real(fl), a.w);
  }
  Val minmax(const Val &x, const Val &y, bool mx)
  {
    if (x.k == Val::Fp && y.k == Val::Fp) return Val::mkFp(mx ? std::fmax(x.d, y.d) : std::fmin(x.d, y.d), x.w);
    Val c = fcmp(mx ? CmpInst::FCMP_OGT : CmpInst::FCMP_OLT, x, y);
    if (c.k == Val::Int) return c.i ? x : y;
    return iteVal(cond(c), x, y);
  }
  Val sqrtV(State &S, const Val &a)
  {
    if (a.k == Val::Undef) return a;
    if (a.k == Val::Fp) {
      double r = std::sqrt(a.d);
      if (!std::isfinite(r) || std::fma(r, r, -a.d) == 0) return Val::mkFp(r, a.w);
    }
    z3::expr e = norm(toReal(a));
    if (!e.is_numeral()) {
      if (!decide(S, e >= 0)) {
        fail(S, "arith", "sqrt of a negative number", C->bool_val(true));
        throw PathEnd{ "sqrt" };
      }
    }
    for (size_t i = 0; i < defs.size(); ++i)
      if (defs[i].kind == 1 && z3::eq(defs[i].arg, e)) {
        useDef(S, i);
        return Val::mkReal(defs[i].a, a.w);
      }
    unsigned i = defs.size();
    z3::expr y = C->real_const(("sqrt!" + std::to_string(i)).c_str());
    defs.push_back(Def{ 1, e, y, y });
    defVar[y.id()] = 2 * i;
    useDef(S, i);
    return Val::mkReal(y, a.w);
  }
  string uniq(State &S, const string &n)
  {
    unsigned k = S.symCount[n]++;
    return k ? n + "#" + std::to_string(k) : n;
  }
  bool intrinsic(State &S, const IntrinsicInst *ii, vector<Val> &a, Val &ret)
  {
    Type *ty = ii->getType();
    auto vec = [&](auto fn) {
      if (ty->isVectorTy()) {
        vector<Val> r;
        for (size_t k = 0; k < a[0].agg->size(); ++k) {
          vector<Val> b;
          for (auto &x : a) b.push_back(x.k == Val::Agg ? (*x.agg)[k] : x);
          r.push_back(fn(b));
        }
        ret = Val::mkAgg(r);
      } else
        ret = fn(a);
      return true;
    };
    switch (ii->getIntrinsicID()) {
    case Intrinsic::lifetime_start:
    case Intrinsic::lifetime_end:
    case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value:
    case Intrinsic::dbg_label:
    case Intrinsic::assume:
    case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::invariant_end:
    case Intrinsic::donothing:
    case Intrinsic::prefetch: return true;
    case Intrinsic::invariant_start: ret = Val::mkInt(0, 64); return true;
    case Intrinsic::memcpy:
    case Intrinsic::memmove:
      copyMem(S, (uint64_t)concretize(S, a[0]), (uint64_t)concretize(S, a[1]), (uint64_t)concretize(S, a[2]));
      return true;
    case Intrinsic::memset: {
      uint64_t p = (uint64_t)concretize(S, a[0]), len = (uint64_t)concretize(S, a[2]);
      if (!len) return true;
      uint64_t base;
      bool g;
      ObjP o = find(S, p, base, g);
      if (!o || p - base + len > o->size) memErr(S, "memset out of bounds");
      Obj *w = writable(S, base, g);
      if (a[1].k != Val::Int) throw Unsupported{ "memset value" };
      dropCovered(*w, p - base, len);
      for (uint64_t k = 0; k < len;) {
        unsigned st = std::min<uint64_t>(8, len - k);
        u128 x = 0;
        for (unsigned q = 0; q < st; ++q) x = (x << 8) | (uint8_t)a[1].i;
        rawStore(*w, p - base + k, Val::mkInt(x, st * 8), st);
        k += st;
      }
      return true;
    }
    case Intrinsic::fabs: return vec([&](vector<Val> &b) { return fabsV(b[0]); });
    case Intrinsic::sqrt: return vec([&](vector<Val> &b) { return sqrtV(S, b[0]); });
    case Intrinsic::floor: return vec([&](vector<Val> &b) { return floorV(b[0]); });
    case Intrinsic::ceil: return vec([&](vector<Val> &b) { return fneg(floorV(fneg(b[0]))); });
    case Intrinsic::trunc: {
      if (a[0].k == Val::Fp) {
        ret = Val::mkFp(std::trunc(a[0].d), a[0].w);
        return true;
      }
      break;
    }
    case Intrinsic::sin:
    case Intrinsic::cos: {
      z3::expr s(*C), c(*C);
      if (a[0].k == Val::Fp && a[0].d == 0) {
        ret = Val::mkFp(ii->getIntrinsicID() == Intrinsic::sin ? 0.0 : 1.0);
        return true;
      }
      trig(S, toReal(a[0]), s, c);
      ret = Val::mkReal(ii->getIntrinsicID() == Intrinsic::sin ? s : c);
      return true;
    }
    case Intrinsic::fmuladd:
    case Intrinsic::fma:
      return vec([&](vector<Val> &b) {
        return fpBin(S, Instruction::FAdd, fpBin(S, Instruction::FMul, b[0], b[1]), b[2]);
      });
    case Intrinsic::minnum:
    case Intrinsic::minimum: return vec([&](vector<Val> &b) { return minmax(b[0], b[1], false); });
    case Intrinsic::maxnum:
    case Intrinsic::maximum: return vec([&](vector<Val> &b) { return minmax(b[0], b[1], true); });
    case Intrinsic::copysign:
      if (a[0].k == Val::Fp && a[1].k == Val::Fp) {
        ret = Val::mkFp(std::copysign(a[0].d, a[1].d), a[0].w);
        return true;
      }
      break;
    case Intrinsic::powi:
    case Intrinsic::pow: {
      double ed;
      if (a[1].k == Val::Int)
        ed = (double)sext(a[1].i, a[1].w);
      else if (a[1].k == Val::Fp)
        ed = a[1].d;
      else
        break;
      if (ed != std::floor(ed) || std::fabs(ed) > 64) break;
      Val r = Val::mkFp(1.0);
      for (int k = 0; k < std::abs((int)ed); ++k) r = fpBin(S, Instruction::FMul, r, a[0]);
      if (ed < 0) r = fpBin(S, Instruction::FDiv, Val::mkFp(1.0), r);
      ret = r;
      return true;
    }
    case Intrinsic::smax:
    case Intrinsic::smin:
    case Intrinsic::umax:
    case Intrinsic::umin: {
      unsigned id = ii->getIntrinsicID();
      unsigned pr = id == Intrinsic::smax ? CmpInst::ICMP_SGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
      return vec([&](vector<Val> &b) {
        Val c = icmp(pr, b[0], b[1]);
        if (c.k == Val::Undef) return c;
        if (c.k == Val::Int) return c.i ? b[0] : b[1];
        return iteVal(cond(c), b[0], b[1]);
      });
    }
    case Intrinsic::abs:
      return vec([&](vector<Val> &b) {
        if (b[0].k == Val::Undef) return b[0];
        if (b[0].k == Val::Int) {
          i128 x = sext(b[0].i, b[0].w);
          return Val::mkInt((u128)(x < 0 ? -x : x), b[0].w);
        }
        z3::expr e = toBV(b[0]);
        return Val::mkBV(z3::ite(e < 0, -e, e));
      });
    case Intrinsic::ctpop:
    case Intrinsic::ctlz:
    case Intrinsic::cttz: {
      if (a[0].k != Val::Int) a[0] = Val::mkInt(concretize(S, a[0]), a[0].w);
      unsigned w = a[0].w;
      unsigned r = 0;
      if (ii->getIntrinsicID() == Intrinsic::ctpop) {
        for (unsigned k = 0; k < w; ++k) r += (unsigned)((a[0].i >> k) & 1);
      } else if (ii->getIntrinsicID() == Intrinsic::ctlz) {
        r = w;
        for (unsigned k = 0; k < w; ++k)
          if ((a[0].i >> k) & 1) r = w - 1 - k;
      } else {
        r = w;
        for (int k = (int)w - 1; k >= 0; --k)
          if ((a[0].i >> k) & 1) r = k;
      }
      ret = Val::mkInt(r, w);
      return true;
    }
    case Intrinsic::fshl:
    case Intrinsic::fshr: {
      unsigned w = a[0].w;
      if (a[2].k != Val::Int) break;
      unsigned s = (unsigned)(a[2].i % w);
      bool l = ii->getIntrinsicID() == Intrinsic::fshl;
      if (a[0].k == Val::Int && a[1].k == Val::Int) {
        u128 x = a[0].i, y = a[1].i;
        u128 r = s == 0 ? (l ? x : y) : l ? (x << s) | (y >> (w - s)) : (x << (w - s)) | (y >> s);
        ret = Val::mkInt(r, w);
        return true;
      }
      z3::expr x = toBV(a[0]), y = toBV(a[1]);
      if (s == 0)
        ret = l ? a[0] : a[1];
      else
        ret = Val::mkBV(l ? z3::concat(x.extract(w - 1 - s, 0), y.extract(w - 1, w - s)) : z3::concat(x.extract(s - 1, 0), y.extract(w - 1, s)));
      return true;
    }
    case Intrinsic::bswap: {
      unsigned w = a[0].w;
      if (a[0].k != Val::Int) break;
      u128 r = 0;
      for (unsigned k = 0; k < w / 8; ++k) r = (r << 8) | ((a[0].i >> (8 * k)) & 255);
      ret = Val::mkInt(r, w);
      return true;
    }
    case Intrinsic::sadd_with_overflow:
    case Intrinsic::ssub_with_overflow:
    case Intrinsic::smul_with_overflow:
    case Intrinsic::uadd_with_overflow:
    case Intrinsic::usub_with_overflow:
    case Intrinsic::umul_with_overflow: {
      unsigned w = a[0].w;
      unsigned id = ii->getIntrinsicID();
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      unsigned op = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? Instruction::Add : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? Instruction::Sub : Instruction::Mul;
      if (a[0].k == Val::Int && a[1].k == Val::Int && w <= 63) {
        i128 x = sg ? sext(a[0].i, w) : (i128)a[0].i, y = sg ? sext(a[1].i, w) : (i128)a[1].i;
        i128 r = op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : x * y;
        Val rv = Val::mkInt((u128)r, w);
        i128 back = sg ? sext(rv.i, w) : (i128)rv.i;
        ret = Val::mkAgg({ rv, Val::mkInt(back != r, 1) });
        return true;
      }
      unsigned W = op == Instruction::Mul ? 2 * w : w + 1;
      z3::expr x = sg ? z3::sext(toBV(a[0]), W - w) : z3::zext(toBV(a[0]), W - w);
      z3::expr y = sg ? z3::sext(toBV(a[1]), W - w) : z3::zext(toBV(a[1]), W - w);
      z3::expr r = op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : x * y;
      z3::expr lo = r.extract(w - 1, 0);
      z3::expr back = sg ? z3::sext(lo, W - w) : z3::zext(lo, W - w);
      ret = Val::mkAgg({ Val::mkBV(lo.simplify()), boolVal(back != r) });
      return true;
    }
    case Intrinsic::usub_sat:
    case Intrinsic::uadd_sat:
      if (a[0].k == Val::Int && a[1].k == Val::Int) {
        u128 m = (((u128)1) << a[0].w) - 1;
        if (ii->getIntrinsicID() == Intrinsic::usub_sat)
          ret = Val::mkInt(a[0].i > a[1].i ? a[0].i - a[1].i : 0, a[0].w);
        else
          ret = Val::mkInt(a[0].i + a[1].i > m ? m : a[0].i + a[1].i, a[0].w);
        return true;
      }
      if (ii->getIntrinsicID() == Intrinsic::usub_sat) {
        z3::expr x = toBV(a[0]), y = toBV(a[1]);
        ret = Val::mkBV(z3::ite(z3::ugt(x, y), x - y, C->bv_val(0, a[0].w)));
        return true;
      }
      break;
    case Intrinsic::expect:
    case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group:
    case Intrinsic::annotation: ret = a[0]; return true;
    case Intrinsic::is_constant: ret = Val::mkInt(0, 1); return true;
    case Intrinsic::objectsize: ret = Val::mkInt(~(u128)0, 64); return true;
    case Intrinsic::stacksave: ret = Val::mkInt(0, 64); return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::eh_typeid_for: {
      auto *g = dyn_cast<GlobalValue>(ii->getArgOperand(0)->stripPointerCasts());
      ret = Val::mkInt((u128)(g ? typeId(g->getName().str()) : (1 << 20)), 32);
      return;
    }
    case Intrinsic::threadlocal_address: ret = a[0]; return;
    case Intrinsic::trap:
    case Intrinsic::ubsantrap:
      fail(S, "ub", "undefined behaviour trap", C->bool_val(true));
      throw PathEnd{ "trap" };
    case Intrinsic::vector_reduce_add:
    case Intrinsic::vector_reduce_fadd: break;
    default: break;
    }
    throw Unsupported{ "intrinsic " + ii->getCalledFunction()->getName().str() };
  }
  std::map<string, int> typeIds;
  int typeId(const string &t)
  {
    auto it = typeIds.find(t);
    if (it != typeIds.end()) return it->second;
    int k = (int)typeIds.size() + 1;
    return typeIds[t] = k;
  }
  // may an exception of type `t` be caught as `c` (names of type infos)?
  bool catches(const string &c, const string &t)
  {
    if (c == t) return true;
    if (auto *g = M.getGlobalVariable(t, true)) {
      if (g->hasInitializer())
        if (auto *cs = dyn_cast<ConstantStruct>(g->getInitializer()))
          for (unsigned k = 2; k < cs->getNumOperands(); ++k)
            if (auto *b = dyn_cast<GlobalVariable>(cs->getOperand(k)->stripPointerCasts()))
              if (catches(c, b->getName().str())) return true;
    }
    if (!StringRef(t).starts_with("_ZTISt")) return false;
    if (c == "_ZTISt9exception") return true;
    static const std::set<string> logic = { "_ZTISt12length_error", "_ZTISt12out_of_range", "_ZTISt16invalid_argument", "_ZTISt12domain_error" };
    static const std::set<string> runtime = { "_ZTISt11range_error", "_ZTISt14overflow_error", "_ZTISt15underflow_error" };
    return (c == "_ZTISt11logic_error" && logic.count(t)) || (c == "_ZTISt13runtime_error" && runtime.count(t)) || (c == "_ZTISt9bad_alloc" && t == "_ZTISt20bad_array_new_length");
  }
  static string clauseName(const LandingPadInst *lp, unsigned k)
  {
    auto *g = dyn_cast<GlobalValue>(lp->getClause(k)->stripPointerCasts());
    return g ? g->getName().str() : string();// empty: catches everything
  }
  // 0: does not stop here; otherwise the selector (-1: clean-up only)
  int selector(const LandingPadInst *lp, const string &t)
  {
    for (unsigned k = 0; k < lp->getNumClauses(); ++k) {
      if (lp->isFilter(k)) throw Unsupported{ "exception specification" };
      string c = clauseName(lp, k);
      if (c.empty()) return 1 << 20;
      if (catches(c, t)) return typeId(c);
    }
    return lp->isCleanup() ? -1 : 0;
  }
  // continues at the nearest landing pad; `site`: call in the topmost frame through which the exception leaves
  [[noreturn]] void raise(State &S, const CallBase *site, uint64_t ex, const string &t)
  {
    auto handler = [&](bool cleanups) -> long {
      const CallBase *cb = site;
      for (long k = (long)S.st.size() - 1; k >= 0 && cb; --k) {
        if (auto *inv = dyn_cast<InvokeInst>(cb)) {
          int s = selector(inv->getLandingPadInst(), t);
          if (s > 0 || (s < 0 && cleanups)) return k;
        }
        cb = S.st[(size_t)k].callSite;
      }
      return -1;
    };
    if (handler(false) < 0) {
      fail(S, "exception", "exception thrown: " + llvm::demangle(t), C->bool_val(true));
      throw PathEnd{ "throw" };
    }
    long to = handler(true);
    const CallBase *cb = site;
    while ((long)S.st.size() - 1 > to) {
      Frame &f = S.st.back();
      for (auto p : f.allocas) S.mem.erase(p);
      cb = f.callSite;
      S.st.pop_back();
    }
    S.exPtr = ex;
    S.exType = t;
    jump(S.st.back(), cast<InvokeInst>(cb)->getUnwindDest());
    throw Unwound{};
  }
  void finishCall(State &S, const CallBase *cb, Val ret)
  {
    Frame &f = S.st.back();
    if (!cb->getType()->isVoidTy()) setReg(f, cb, asType(ret, cb->getType()));
    if (auto *inv = dyn_cast<InvokeInst>(cb))
      jump(f, inv->getNormalDest());
    else
      f.it = std::next(cb->getIterator());
  }
  void jump(Frame &f, const BasicBlock *to)
  {
    f.prev = f.bb;
    f.bb = to;
    // evaluate phis in parallel
    vector<std::pair<const Instruction *, Val>> ph;
    auto it = to->begin();
    for (; it != to->end() && isa<PHINode>(*it); ++it) {
      auto *p = cast<PHINode>(&*it);
      ph.push_back({ p, val(f, p->getIncomingValueForBlock(f.prev)) });
    }
    for (auto &x : ph) setReg(f, x.first, x.second);
    f.it = it;
  }
  void call(State &S, const CallBase *cb)
  {
    Frame &f = S.st.back();
    vector<Val> args;
    for (unsigned k = 0; k < cb->arg_size(); ++k) {
      const Value *av = cb->getArgOperand(k);
      if (isa<MetadataAsValue>(av))
        args.push_back(Val());
      else
        args.push_back(val(f, av));
    }
    if (auto *ii = dyn_cast<IntrinsicInst>(cb)) {
      Val ret;
      intrinsic(S, ii, args, ret);
      finishCall(S, cb, ret);
      return;
    }
    const Function *fn = cb->getCalledFunction();
    if (!fn) {
      const Value *cv = cb->getCalledOperand()->stripPointerCasts();
      fn = dyn_cast<Function>(cv);
      if (!fn) {
        if (auto *ia = dyn_cast<InlineAsm>(cv)) {
          if (ia->getAsmString().empty()) {
            finishCall(S, cb, args.empty() ? Val() : args[0]);
            return;
          }
          throw Unsupported{ "inline asm" };
        }
        uint64_t p = (uint64_t)concretize(S, val(f, cb->getCalledOperand()));
        auto it = faddr.find(p);
        if (it == faddr.end()) memErr(S, "call through a bad function pointer");
        fn = it->second;
      }
    }
    if (auto *al = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts()))
      fn = cast<Function>(al->getAliasee()->stripPointerCasts());
    if (fn->isDeclaration() || fn->getName().starts_with("sx_")) {
      Val ret;
      size_t depth = S.st.size();
      if (external(S, cb, fn, args, ret)) {
        (void)depth;
        finishCall(S, cb, ret);
        return;
      }
      throw Unsupported{ "external function " + llvm::demangle(fn->getName().str()) };
    }
    if (S.st.size() > 400) throw Unsupported{ "recursion depth" };
    FInfo &fi = getInfo(fn);
    Frame nf;
    nf.f = fn;
    nf.bb = &fn->getEntryBlock();
    nf.it = nf.bb->begin();
    nf.regs = std::make_shared<vector<Val>>(fi.n);
    nf.callSite = cb;
    unsigned k = 0;
    for (auto &arg : fn->args()) {
      Val v = k < args.size() ? args[k] : Val();
      if (arg.hasByValAttr()) {
        uint64_t sz = DL->getTypeAllocSize(arg.getParamByValType());
        uint64_t p = alloc(S, sz, "byval");
        copyMem(S, p, (uint64_t)concretize(S, v), sz);
        nf.allocas.push_back(p);
        v = Val::mkInt(p, 64);
      }
      (*nf.regs)[fi.slot[&arg]] = asType(v, arg.getType());
      ++k;
    }
    S.st.push_back(std::move(nf));
  }

  // executes until the path ends
  void run(State &S0)
  {
    cur = &S0;
    State &S = S0;
    while (true) {
      if (S.st.empty()) throw PathEnd{ "done" };
      ++nSteps;
      ++S.steps;
      if ((nSteps & 0xfff) == 0) {
        if (now() - tStart > O.maxTime) throw PathEnd{ "TIME" };
      }
      if (S.steps > O.maxSteps) throw Unsupported{ "step limit" };
      Frame &f = S.st.back();
      const Instruction *I = &*f.it;
      try {
        step(S, f, I);
      } catch (Unwound &) {
      }
    }
  }
  void next(Frame &f) { ++f.it; }
  void step(State &S, Frame &f, const Instruction *I)
  {
    unsigned op = I->getOpcode();
    switch (op) {
    case Instruction::Ret: {
      auto *r = cast<ReturnInst>(I);
      Val v;
      if (r->getReturnValue()) v = val(f, r->getReturnValue());
      for (auto p : f.allocas) S.mem.erase(p);
      const CallBase *cs = f.callSite;
      S.st.pop_back();
      if (!cs || S.st.empty()) throw PathEnd{ "done" };
      finishCall(S, cs, v);
      return;
    }
    case Instruction::Br: {
      auto *b = cast<BranchInst>(I);
      if (b->isUnconditional()) {
        jump(f, b->getSuccessor(0));
        return;
      }
      Val c = val(f, b->getCondition());
      if (c.k == Val::Undef) {
        fail(S, "memory", "branch on an uninitialised value", C->bool_val(true));
        throw PathEnd{ "undef" };
      }
      bool t = c.k == Val::Int ? c.i != 0 : decide(S, cond(c));
      jump(S.st.back(), b->getSuccessor(t ? 0 : 1));
      return;
    }
    case Instruction::Switch: {
      auto *sw = cast<SwitchInst>(I);
      Val c = val(f, sw->getCondition());
      if (c.k == Val::Undef) {
        fail(S, "memory", "switch on an uninitialised value", C->bool_val(true));
        throw PathEnd{ "undef" };
      }
      if (c.k == Val::Int) {
        for (auto &cs : sw->cases())
          if (constant(cs.getCaseValue()).i == c.i) {
            jump(f, cs.getCaseSuccessor());
            return;
          }
        jump(f, sw->getDefaultDest());
        return;
      }
      for (auto &cs : sw->cases()) {
        if (decide(S, toBV(c) == toBV(constant(cs.getCaseValue())))) {
          jump(S.st.back(), cs.getCaseSuccessor());
          return;
        }
      }
      jump(S.st.back(), sw->getDefaultDest());
      return;
    }
    case Instruction::Unreachable: throw Unsupported{ "unreachable executed in " + where(S) };
    case Instruction::Call:
    case Instruction::Invoke: call(S, cast<CallBase>(I)); return;
    case Instruction::Alloca: {
      auto *ai = cast<AllocaInst>(I);
      uint64_t n = (uint64_t)concretize(S, val(f, ai->getArraySize()));
      uint64_t sz = n * DL->getTypeAllocSize(ai->getAllocatedType());
      uint64_t p = alloc(S, sz, "stack");
      f.allocas.push_back(p);
      setReg(f, I, Val::mkInt(p, 64));
      next(f);
      return;
    }
    case Instruction::Load: {
      auto *li = cast<LoadInst>(I);
      Val v = load(S, val(f, li->getPointerOperand()), li->getType());
      setReg(S.st.back(), I, asType(v, li->getType()));
      next(S.st.back());
      return;
    }
    case Instruction::Store: {
      auto *si = cast<StoreInst>(I);
      store(S, val(f, si->getPointerOperand()), val(f, si->getValueOperand()), si->getValueOperand()->getType());
      next(S.st.back());
      return;
    }
    case Instruction::GetElementPtr: {
      auto *g = cast<GetElementPtrInst>(I);
      Val p = val(f, g->getPointerOperand());
      if (g->getType()->isVectorTy()) throw Unsupported{ "vector gep" };
      uint64_t coff = 0;
      z3::expr soff(*C);
      bool hasS = false;
      bool undef = p.k == Val::Undef;
      for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        Val ix = val(f, it.getOperand());
        if (StructType *st = it.getStructTypeOrNull()) {
          coff += DL->getStructLayout(st)->getElementOffset((unsigned)ix.i);
          continue;
        }
        uint64_t es = DL->getTypeAllocSize(it.getIndexedType());
        if (ix.k == Val::Int)
          coff += es * (uint64_t)sext(ix.i, ix.w);
        else if (ix.k == Val::Undef)
          undef = true;
        else {
          z3::expr x = toBV(ix);
          if (ix.w < 64) x = z3::sext(x, 64 - ix.w);
          z3::expr t = es == 1 ? x : x * C->bv_val(es, 64);
          soff = hasS ? soff + t : t;
          hasS = true;
        }
      }
      if (undef) {
        setReg(f, I, Val());
        next(f);
        return;
      }
      Val r = addPtr(p, coff);
      if (hasS) r = Val::mkBV(toBV(r) + soff);
      setReg(f, I, r);
      next(f);
      return;
    }
    case Instruction::PHI: throw Unsupported{ "stray phi" };
    case Instruction::Select: {
      auto *se = cast<SelectInst>(I);
      Val c = val(f, se->getCondition());
      Val a = val(f, se->getTrueValue()), b = val(f, se->getFalseValue());
      if (c.k == Val::Agg) {
        vector<Val> r;
        for (size_t k = 0; k < c.agg->size(); ++k) {
          const Val &ck = (*c.agg)[k];
          if (ck.k == Val::Int)
            r.push_back(ck.i ? (*a.agg)[k] : (*b.agg)[k]);
          else
            r.push_back(iteVal(cond(ck), (*a.agg)[k], (*b.agg)[k]));
        }
        setReg(f, I, Val::mkAgg(r));
        next(f);
        return;
      }
      if (c.k == Val::Undef) {
        fail(S, "memory", "select on an uninitialised value", C->bool_val(true));
        throw PathEnd{ "undef" };
      }
      if (c.k == Val::Int) {
        setReg(f, I, c.i ? a : b);
        next(f);
        return;
      }
      z3::expr cc = cond(c).simplify();
      bool inf = (a.k == Val::Fp && !std::isfinite(a.d)) || (b.k == Val::Fp && !std::isfinite(b.d));
      bool ptr = se->getType()->isPointerTy();
      if (a.k == Val::Undef || b.k == Val::Undef || inf || ptr || a.k == Val::Agg) {
        bool t = decide(S, cc);
        setReg(S.st.back(), I, t ? a : b);
        next(S.st.back());
        return;
      }
      setReg(f, I, iteVal(cc, a, b));
      next(f);
      return;
    }
    case Instruction::ICmp:
    case Instruction::FCmp: {
      auto *ci = cast<CmpInst>(I);
      Val a = val(f, ci->getOperand(0)), b = val(f, ci->getOperand(1));
      unsigned pr = ci->getPredicate();
      setReg(f, I, lift2(a, b, [&](const Val &x, const Val &y) { return op == Instruction::ICmp ? icmp(pr, x, y) : fcmp(pr, x, y); }));
      next(f);
      return;
    }
    case Instruction::FNeg: {
      Val a = val(f, I->getOperand(0));
      setReg(f, I, lift2(a, a, [&](const Val &x, const Val &) { return fneg(x); }));
      next(f);
      return;
    }
    case Instruction::FAdd:
    case Instruction::FSub:
    case Instruction::FMul:
    case Instruction::FDiv:
    case Instruction::FRem: {
      Val a = val(f, I->getOperand(0)), b = val(f, I->getOperand(1));
      Val r = lift2(a, b, [&](const Val &x, const Val &y) { return fpBin(S, op, x, y); });
      setReg(S.st.back(), I, r);
      next(S.st.back());
      return;
    }
    case Instruction::Add:
    case Instruction::Sub:
    case Instruction::Mul:
    case Instruction::UDiv:
    case Instruction::SDiv:
    case Instruction::URem:
    case Instruction::SRem:
    case Instruction::Shl:
    case Instruction::LShr:
    case Instruction::AShr:
    case Instruction::And:
    case Instruction::Or:
    case Instruction::Xor: {
      Val a = val(f, I->getOperand(0)), b = val(f, I->getOperand(1));
      Val r = lift2(a, b, [&](const Val &x, const Val &y) { return intBin(S, op, x, y, I); });
      setReg(S.st.back(), I, r);
      next(S.st.back());
      return;
    }
    case Instruction::ExtractValue: {
      auto *ev = cast<ExtractValueInst>(I);
      Val v = val(f, ev->getAggregateOperand());
      for (unsigned k : ev->indices()) {
        if (v.k == Val::Undef) break;
        Val t = (*v.agg)[k];
        v = t;
      }
      setReg(f, I, v);
      next(f);
      return;
    }
    case Instruction::InsertValue: {
      auto *iv = cast<InsertValueInst>(I);
      Val v = val(f, iv->getAggregateOperand());
      if (v.k == Val::Undef) v = zeroOrUndef(iv->getType(), true);
      Val x = val(f, iv->getInsertedValueOperand());
      std::function<Val(const Val &, unsigned)> ins = [&](const Val &c, unsigned d) -> Val {
        if (d == iv->getNumIndices()) return x;
        vector<Val> r = *c.agg;
        r[iv->getIndices()[d]] = ins(r[iv->getIndices()[d]], d + 1);
        return Val::mkAgg(r);
      };
      setReg(f, I, ins(v, 0));
      next(f);
      return;
    }
    case Instruction::ExtractElement: {
      Val v = val(f, I->getOperand(0));
      uint64_t ix = (uint64_t)concretize(S, val(f, I->getOperand(1)));
      setReg(f, I, v.k == Val::Undef ? Val() : (*v.agg)[ix]);
      next(f);
      return;
    }
    case Instruction::InsertElement: {
      Val v = val(f, I->getOperand(0));
      if (v.k == Val::Undef) v = zeroOrUndef(I->getType(), true);
      uint64_t ix = (uint64_t)concretize(S, val(f, I->getOperand(2)));
      vector<Val> r = *v.agg;
      r[ix] = val(f, I->getOperand(1));
      setReg(f, I, Val::mkAgg(r));
      next(f);
      return;
    }
    case Instruction::ShuffleVector: {
      auto *sv = cast<ShuffleVectorInst>(I);
      Val a = val(f, sv->getOperand(0)), b = val(f, sv->getOperand(1));
      unsigned n = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements();
      vector<Val> r;
      for (int m : sv->getShuffleMask()) {
        if (m < 0)
          r.push_back(Val());
        else {
          const Val &src = (unsigned)m < n ? a : b;
          r.push_back(src.k == Val::Undef ? Val() : (*src.agg)[(unsigned)m % n]);
        }
      }
      setReg(f, I, Val::mkAgg(r));
      next(f);
      return;
    }
    case Instruction::Freeze: {
      Val v = val(f, I->getOperand(0));
      if (v.k == Val::Undef) v = zeroOrUndef(I->getType(), false);
      setReg(f, I, v);
      next(f);
      return;
    }
    case Instruction::AtomicRMW: {
      auto *rmw = cast<AtomicRMWInst>(I);
      Val p = val(f, rmw->getPointerOperand());
      Val o = load(S, p, rmw->getType());
      Val x = val(f, rmw->getValOperand());
      Val r;
      switch (rmw->getOperation()) {
      case AtomicRMWInst::Add: r = intBin(S, Instruction::Add, o, x, I); break;
      case AtomicRMWInst::Sub: r = intBin(S, Instruction::Sub, o, x, I); break;
      case AtomicRMWInst::Xchg: r = x; break;
      default: throw Unsupported{ "atomicrmw" };
      }
      store(S, p, r, rmw->getType());
      setReg(S.st.back(), I, o);
      next(S.st.back());
      return;
    }
    case Instruction::AtomicCmpXchg: {
      auto *cx = cast<AtomicCmpXchgInst>(I);
      Val p = val(f, cx->getPointerOperand());
      Type *ty = cx->getCompareOperand()->getType();
      Val o = load(S, p, ty);
      Val same = icmp(CmpInst::ICMP_EQ, o, val(f, cx->getCompareOperand()));
      if (same.k != Val::Int) throw Unsupported{ "cmpxchg of symbolic values" };
      if (same.i) store(S, p, val(f, cx->getNewValOperand()), ty);
      setReg(S.st.back(), I, Val::mkAgg({ o, same }));
      next(S.st.back());
      return;
    }
    case Instruction::Fence: next(f); return;
    case Instruction::Resume: {
      for (auto p : f.allocas) S.mem.erase(p);
      const CallBase *cs = f.callSite;
      S.st.pop_back();
      if (!cs || S.st.empty()) throw Unsupported{ "exception leaves the harness" };
      raise(S, cs, S.exPtr, S.exType);
    }
    case Instruction::LandingPad: {
      int s = selector(cast<LandingPadInst>(I), S.exType);
      setReg(f, I, Val::mkAgg({ Val::mkInt(S.exPtr, 64), Val::mkInt((u128)(s < 0 ? 0 : s), 32) }));
      next(f);
      return;
    }
    default: break;
    }
    if (auto *ci = dyn_cast<CastInst>(I)) {
      Val v = val(f, ci->getOperand(0));
      Val r = cast_(S, ci, v, ci->getSrcTy(), ci->getDestTy());
      setReg(S.st.back(), I, r);
      next(S.st.back());
      return;
    }
    string s;
    raw_string_ostream os(s);
    I->print(os);
    throw Unsupported{ "instruction " + s };
  }
  void explore(State init)
  {
    work.push_back(std::move(init));
    while (!work.empty()) {
      if (now() - tStart > O.maxTime) {
        incomplete["time budget reached; unexplored states: " + std::to_string(work.size())]++;
        break;
      }
      if (nPaths >= O.maxPaths) {
        incomplete["path budget reached"]++;
        break;
      }
      if (failures.size() >= O.maxFails) break;
      State S = std::move(work.back());
      work.pop_back();
      try {
        run(S);
      } catch (PathEnd &p) {
        if (p.why == "done" || p.why == "cut")
          ++nPaths;
        else if (p.why == "TIME") {
          incomplete["time budget reached in a path"]++;
        }
      } catch (Unsupported &u) {
        incomplete["unsupported: " + u.what + " @ " + where(S).substr(0, 300)]++;
      } catch (z3::exception &e) {
        incomplete[string("z3: ") + e.msg() + " @ " + where(S).substr(0, 200)]++;
      }
    }
  }
};

static string jesc(const string &s)
{
  string r;
  for (char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if ((unsigned char)c < 32) {
      r += ' ';
    } else
      r += c;
  }
  return r;
}

int main(int argc, char **argv)
{
  string file, entry = "sx_main", out;
  for (int i = 1; i < argc; ++i) {
    string a = argv[i];
    auto v = [&]() { return string(argv[++i]); };
    if (a == "--entry") entry = v();
    else if (a == "--out") out = v();
    else if (a == "--time") O.maxTime = atof(v().c_str());
    else if (a == "--solver-ms") O.solverMs = atoi(v().c_str());
    else if (a == "--max-paths") O.maxPaths = atoll(v().c_str());
    else if (a == "--max-fails") O.maxFails = atoll(v().c_str());
    else file = a;
  }
  tStart = now();
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(file, err, ctx);
  if (!M) {
    err.print("sxe", errs());
    return 2;
  }
  DL = &M->getDataLayout();
  C = new z3::context();// never destroyed: the process leaves through _exit
  Exec ex(*M);
  Function *F = M->getFunction(entry);
  if (!F) {
    errs() << "no entry " << entry << "\n";
    return 2;
  }
  State S;
  // static initialisers run first, innermost frame last
  vector<const Function *> seq;
  try {
    for (auto &g : M->globals())
      if (g.hasInitializer() && !g.getName().starts_with("llvm.")) ex.addrOf(&g);
    for (auto &fn : *M) ex.addrOf(&fn);
    if (auto *gc = M->getGlobalVariable("llvm.global_ctors"))
      if (gc->hasInitializer())
        if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
          for (auto &op : ca->operands()) {
            auto *cs = cast<ConstantStruct>(op);
            if (auto *fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) seq.push_back(fn);
          }
    // run ctors one by one on the initial state (must be deterministic)
    for (auto *fn : seq) {
      Frame fr;
      fr.f = fn;
      fr.bb = &fn->getEntryBlock();
      fr.it = fr.bb->begin();
      fr.regs = std::make_shared<vector<Val>>(getInfo(fn).n);
      S.st = { fr };
      try {
        ex.run(S);
      } catch (PathEnd &) {}
      S.st.clear();
    }
  } catch (Unsupported &u) {
    incomplete["initialisers: " + u.what]++;
  }
  Frame fr;
  fr.f = F;
  fr.bb = &F->getEntryBlock();
  fr.it = fr.bb->begin();
  fr.regs = std::make_shared<vector<Val>>(getInfo(F).n);
  S.st = { fr };
  S.steps = 0;
  // a call of the solver that does not return must not hide what was found before it
  static std::atomic<int> writing{ 0 };
  auto report = [&]() {
  if (writing.exchange(1)) {
    sleep(60);
    _exit(3);
  }
  std::ostringstream os;
  os << "{\n\"entry\":\"" << entry << "\",\n\"paths\":" << nPaths << ",\"forks\":" << nForks << ",\"queries\":" << nQueries
     << ",\"steps\":" << nSteps << ",\"cuts\":" << nCuts << ",\"solver_asserts\":" << nSolverAsserts << ",\"solver_s\":" << tSolver
     << ",\"wall_s\":" << now() - tStart << ",\n\"failures\":[";
  bool first = true;
  auto mod = [&](const std::map<string, string> &m) {
    os << "{";
    bool f2 = true;
    for (auto &kv : m) {
      os << (f2 ? "" : ",") << "\"" << jesc(kv.first) << "\":\"" << jesc(kv.second) << "\"";
      f2 = false;
    }
    os << "}";
  };
  for (auto &fl : failures) {
    os << (first ? "" : ",") << "\n{\"kind\":\"" << jesc(fl.kind) << "\",\"msg\":\"" << jesc(fl.msg) << "\",\"where\":\"" << jesc(fl.where) << "\",\"model\":";
    mod(fl.model);
    os << "}";
    first = false;
  }
  os << "],\n\"reached\":{";
  first = true;
  for (auto &kv : reached) {
    os << (first ? "" : ",") << "\n\"" << jesc(kv.first) << "\":";
    mod(kv.second);
    first = false;
  }
  os << "},\n\"incomplete\":{";
  first = true;
  for (auto &kv : incomplete) {
    os << (first ? "" : ",") << "\n\"" << jesc(kv.first) << "\":" << kv.second;
    first = false;
  }
  os << "},\n\"asserts\":{";
  first = true;
  for (auto &kv : assertCount) {
    os << (first ? "" : ",") << "\n\"" << jesc(kv.first) << "\":[" << kv.second << "," << assertSolver[kv.first] << "]";
    first = false;
  }
  os << "},\n\"functions\":[";
  first = true;
  for (auto &s : funcsSeen)
    if (s.find("qugar") != string::npos || s.find("_impl<") != string::npos || s.find("tabulate_tensor") != string::npos) {
      string t = s.substr(0, 160);
      os << (first ? "" : ",") << "\n\"" << jesc(t) << "\"";
      first = false;
    }
  os << "]}\n";
  if (out.empty())
    std::cout << os.str();
  else {
    std::ofstream o(out);
    o << os.str();
    o.close();
  }
  std::cout.flush();
  _exit(failures.empty() ? 0 : 1);
  };
  std::thread([&report]() {
    while (now() - tStart < O.maxTime * 1.15 + 10.0) usleep(200000);
    incomplete["a call of the solver did not return in time"]++;
    report();
  }).detach();
  ex.explore(std::move(S));
  report();
}
