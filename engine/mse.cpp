// mse - "moth symbolic executor": forking symbolic execution of LLVM IR, decided by z3.
// usage: mse prog.bc --out FILE [--entry main_sym] [--jobs N] [--max-insts N] [--time SEC] [--solver-ms N] [--max-errors N] [--arg K] [--concrete FILE]
#include "expr.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <deque>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace llvm;

static ExprPool P;
static const DataLayout *DL;
static Module *M;

// ---------------------------------------------------------------- options / shared counters
static struct Opt { std::string out = "mse.out", entry = "main_sym", concrete; u64 maxInsts = 20000000; double time = 600; unsigned solverMs = 20000; int jobs = 1, maxErrors = 8; u64 arg = 0; int samples = 12; bool trace = false; u64 maxPaths = ~0ULL, iteMax = 1024; } O;
struct Shared { std::atomic<int> active; std::atomic<u64> paths, errors, samples, nforks; };
static Shared *SH;
static int outFd;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double T0;
static struct Stats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, branches = 0, forks = 0, insts = 0, paths = 0, completed = 0, assumeKill = 0, errors = 0, dropped = 0, asserts = 0; double solverTime = 0, maxQuery = 0; std::map<std::string, u64> reach; std::map<std::string, u64> incomplete; } S;

static std::string esc(const std::string &s) { std::string r; for (unsigned char c : s) { char b[8]; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void emit(const std::string &s) { std::string l = s + "\n"; ssize_t n = write(outFd, l.data(), l.size()); (void)n; }
[[noreturn]] static void fatal(const std::string &s) { emit("{\"t\":\"fatal\",\"msg\":\"" + esc(s) + "\"}"); fprintf(stderr, "mse: %s\n", s.c_str()); _exit(3); }

// ---------------------------------------------------------------- values
struct Val { u64 c = 0; Expr *e = nullptr; };
static inline Expr *X(const Val &v, unsigned w) { return v.e ? v.e : P.k(v.c, w); }
static inline Val V(Expr *e) { Val v; if (e->op == E_CONST) v.c = e->val; else v.e = e; return v; }
static inline Val C(u64 c) { Val v; v.c = c; return v; }

// ---------------------------------------------------------------- memory
enum OKind : u8 { K_GLOBAL, K_HEAP, K_STACK, K_VA };
// per-byte access history for the data race question: last write and, per thread, last read (vector clock epochs)
static const int NT = 13; typedef std::array<u32, NT> Clock;
struct Cell { u8 wt = 0; u32 w = 0; Clock r{}; };
struct Obj { u32 rc = 0; OKind kind; std::vector<Cell> sh; std::array<const Instruction *, NT> la{}; bool alive = true, ro = false; u64 base, size; std::vector<u8> c; std::vector<Expr *> s; std::vector<u8> un; std::string name; 
  bool known(u64 i) const { return un.empty() || !un[i]; } };
struct ObjP { Obj *p = nullptr; ObjP() {} ObjP(Obj *o) : p(o) { if (p) p->rc++; } ObjP(const ObjP &o) : p(o.p) { if (p) p->rc++; } ObjP(ObjP &&o) : p(o.p) { o.p = nullptr; }
  ObjP &operator=(ObjP o) { std::swap(p, o.p); return *this; } ~ObjP() { if (p && --p->rc == 0) delete p; } Obj *operator->() const { return p; } Obj &operator*() const { return *p; } };
static const u64 GBASE = 0x100000000ULL, HBASE = 0x200000000000ULL, SBASE = 0x600000000000ULL, FBASE = 0x40000000ULL, GAP = 1 << 16;

// ---------------------------------------------------------------- compiled code
struct Opnd { u32 reg = ~0u; Val c; };
enum IOp : u8 { I_BIN, I_ICMP, I_CAST, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_JMP, I_BR, I_SWITCH, I_RET, I_CALL, I_SELECT, I_COPY, I_UNREACH, I_FBIN, I_FCMP, I_FCAST, I_FNEG, I_NOP, I_RMW, I_CMPXCHG, I_VAARG, I_BAD };
struct Field { u32 off; u8 w; };
struct Phi { u32 dst; Opnd src; u32 n; };
struct Edge { u32 target; std::vector<std::pair<u32, Opnd>> copies; };
struct CFunc;
struct CInst {
  IOp op; u8 sub = 0; u8 w = 0, w2 = 0; u32 dst = ~0u, n = 1; Opnd a, b, c; std::vector<Opnd> args; std::vector<u8> argw; std::vector<Field> fields; std::vector<std::pair<Opnd, std::pair<u64, u8>>> idx; u64 imm = 0, imm2 = 0;
  std::vector<Edge> edges; std::vector<u64> cases; const Instruction *I = nullptr; Function *callee = nullptr; int builtin = 0; bool flt = false; };
struct CFunc { int origin = 0; Function *F; std::vector<CInst> code; u32 nregs = 0; std::vector<std::pair<u32, u32>> params; u64 calls = 0; std::string name; };
static std::map<Function *, CFunc *> compiled;
static std::map<u64, Function *> fnByAddr; static std::map<Function *, u64> fnAddr;
static std::map<const GlobalValue *, u64> gAddr;

struct Frame { CFunc *f; u32 pc = 0; std::vector<Val> r; u32 stackMark; const CInst *call; u64 va = 0; bool tracked = false; };
struct Input { std::string name; std::vector<Expr *> bytes; int kind; }; // kind 0 bytes, 1 number
struct ObjTab { std::vector<ObjP> v; int find(u64 a) const { // last object with base <= a
    size_t lo = 0, hi = v.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m]->base <= a) lo = m + 1; else hi = m; } return (int)lo - 1; } };
struct State {
  std::vector<Frame> fr; ObjTab g, h, st; u64 hNext = HBASE, sNext = SBASE; std::vector<Expr *> cons; std::vector<u64> model; std::vector<Input> inputs; u64 live = 0, insts = 0; i64 failAt = -1; u64 nalloc = 0; bool reuse = false; std::vector<std::pair<u64, u64>> freed; u64 depth = 0; std::string log; std::map<Expr *, u64> known; std::vector<std::string> notes; bool race = false, atomicAcc = false; int tid = 0; std::array<Clock, NT> vc{}; std::map<u64, Clock> sync; std::map<std::pair<u64, int>, u64> tls; };
static std::deque<State *> work;
static std::vector<u64> concreteVals; static bool haveConcrete = false;

// ---------------------------------------------------------------- solver
static Z3_context Z; static Z3_solver ZS; static Z3_sort bvSort[65];
static Z3_ast zbool(Expr *e); 
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static Z3_sort bs(unsigned w) { if (!bvSort[w]) { bvSort[w] = Z3_mk_bv_sort(Z, w); Z3_inc_ref(Z, Z3_sort_to_ast(Z, bvSort[w])); } return bvSort[w]; }
static Z3_ast zbv(Expr *e) {
  if (e->zbv) return e->zbv;
  Z3_ast r;
  switch (e->op) {
    case E_CONST: r = Z3_mk_unsigned_int64(Z, e->val, bs(e->w)); break;
    case E_VAR: r = Z3_mk_const(Z, Z3_mk_int_symbol(Z, (int)e->val), bs(e->w)); break;
    case E_ADD: r = Z3_mk_bvadd(Z, zbv(e->a), zbv(e->b)); break;
    case E_SUB: r = Z3_mk_bvsub(Z, zbv(e->a), zbv(e->b)); break;
    case E_MUL: r = Z3_mk_bvmul(Z, zbv(e->a), zbv(e->b)); break;
    case E_UDIV: r = Z3_mk_bvudiv(Z, zbv(e->a), zbv(e->b)); break;
    case E_SDIV: r = Z3_mk_bvsdiv(Z, zbv(e->a), zbv(e->b)); break;
    case E_UREM: r = Z3_mk_bvurem(Z, zbv(e->a), zbv(e->b)); break;
    case E_SREM: r = Z3_mk_bvsrem(Z, zbv(e->a), zbv(e->b)); break;
    case E_AND: case E_OR: case E_XOR: case E_NOT: case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE:
      if (e->w == 1) { r = Z3_mk_ite(Z, zbool(e), zbv(P.k(1, 1)), zbv(P.k(0, 1))); break; }
      r = e->op == E_AND ? Z3_mk_bvand(Z, zbv(e->a), zbv(e->b)) : e->op == E_OR ? Z3_mk_bvor(Z, zbv(e->a), zbv(e->b)) : e->op == E_XOR ? Z3_mk_bvxor(Z, zbv(e->a), zbv(e->b)) : Z3_mk_bvnot(Z, zbv(e->a)); break;
    case E_SHL: r = Z3_mk_bvshl(Z, zbv(e->a), zbv(e->b)); break;
    case E_LSHR: r = Z3_mk_bvlshr(Z, zbv(e->a), zbv(e->b)); break;
    case E_ASHR: r = Z3_mk_bvashr(Z, zbv(e->a), zbv(e->b)); break;
    case E_ITE: r = Z3_mk_ite(Z, zbool(e->a), zbv(e->b), zbv(e->c)); break;
    case E_ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->a->w, zbv(e->a)); break;
    case E_SEXT: r = Z3_mk_sign_ext(Z, e->w - e->a->w, zbv(e->a)); break;
    case E_EXTRACT: r = Z3_mk_extract(Z, e->val + e->w - 1, e->val, zbv(e->a)); break;
    case E_CONCAT: r = Z3_mk_concat(Z, zbv(e->a), zbv(e->b)); break;
    default: abort();
  }
  return e->zbv = keep(r);
}
static Z3_ast zbool(Expr *e) {
  if (e->zbool) return e->zbool;
  Z3_ast r, two[2];
  switch (e->op) {
    case E_CONST: r = e->val ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
    case E_EQ: r = Z3_mk_eq(Z, zbv(e->a), zbv(e->b)); break;
    case E_ULT: r = Z3_mk_bvult(Z, zbv(e->a), zbv(e->b)); break;
    case E_ULE: r = Z3_mk_bvule(Z, zbv(e->a), zbv(e->b)); break;
    case E_SLT: r = Z3_mk_bvslt(Z, zbv(e->a), zbv(e->b)); break;
    case E_SLE: r = Z3_mk_bvsle(Z, zbv(e->a), zbv(e->b)); break;
    case E_AND: two[0] = zbool(e->a); two[1] = zbool(e->b); r = Z3_mk_and(Z, 2, two); break;
    case E_OR: two[0] = zbool(e->a); two[1] = zbool(e->b); r = Z3_mk_or(Z, 2, two); break;
    case E_XOR: r = Z3_mk_xor(Z, zbool(e->a), zbool(e->b)); break;
    case E_NOT: r = Z3_mk_not(Z, zbool(e->a)); break;
    case E_ITE: r = Z3_mk_ite(Z, zbool(e->a), zbool(e->b), zbool(e->c)); break;
    default: r = Z3_mk_eq(Z, zbv(e), zbv(P.k(1, 1)));
  }
  return e->zbool = keep(r);
}
static void profAdd(double d);
struct VecHash { size_t operator()(const std::vector<u32> &v) const { u64 h = 1469598103934665603ULL; for (u32 x : v) h = (h ^ x) * 1099511628211ULL; return h; } };
struct CacheEnt { bool sat; std::vector<std::pair<u32, u64>> m; };
static std::unordered_map<std::vector<u32>, CacheEnt, VecHash> cache;
enum R { SAT, UNSAT, UNK };
static bool intersects(const VarSet &a, const VarSet &b) {
  size_t i = 0, j = 0; while (i < a.size() && j < b.size()) { if (a[i] == b[j]) return true; if (a[i] < b[j]) i++; else j++; } return false; }
// is cons && q satisfiable?  on SAT newModel = st.model updated on the slice
static R query(State &st, Expr *q, std::vector<u64> *newModel) {
  if (q->op == E_CONST) { if (q->val) { if (newModel) *newModel = st.model; return SAT; } return UNSAT; }
  std::vector<Expr *> slice{q}; std::vector<char> used(st.cons.size(), 0); 
  static std::vector<char> vin; vin.assign(P.vars.size(), 0); for (u32 v : *q->vars) vin[v] = 1;
  bool ch = true; while (ch) { ch = false; for (size_t i = 0; i < st.cons.size(); i++) if (!used[i]) { bool hit = false; for (u32 v : *st.cons[i]->vars) if (vin[v]) { hit = true; break; } if (hit) { used[i] = 1; slice.push_back(st.cons[i]); for (u32 v : *st.cons[i]->vars) if (!vin[v]) { vin[v] = 1; ch = true; } } } }
  std::vector<u32> key; for (auto e : slice) key.push_back(e->id);
  std::sort(key.begin() , key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto apply = [&](const CacheEnt &c) { if (c.sat && newModel) { *newModel = st.model; for (auto &p : c.m) { if (newModel->size() <= p.first) newModel->resize(p.first + 1, 0); (*newModel)[p.first] = p.second; } } return c.sat ? SAT : UNSAT; };
  auto it = cache.find(key); if (it != cache.end()) { S.cacheHits++; return apply(it->second); }
  double t = now();
  S.queries++;
  Z3_solver_push(Z, ZS);
  for (auto e : slice) Z3_solver_assert(Z, ZS, zbool(e));
  Z3_lbool r = Z3_solver_check(Z, ZS);
  CacheEnt ce{r == Z3_L_TRUE, {}};
  if (r == Z3_L_TRUE) {
    Z3_model m = Z3_solver_get_model(Z, ZS); Z3_model_inc_ref(Z, m);
    std::set<u32> vs; for (auto e : slice) vs.insert(e->vars->begin(), e->vars->end());
    for (u32 v : vs) { Z3_ast o; u64 val = 0; if (Z3_model_eval(Z, m, zbv(P.varExpr[v]), true, &o)) { Z3_inc_ref(Z, o); Z3_get_numeral_uint64(Z, o, &val); Z3_dec_ref(Z, o); } ce.m.push_back({v, val}); }
    Z3_model_dec_ref(Z, m);
  }
  Z3_solver_pop(Z, ZS, 1);
  if (r == Z3_L_UNDEF) { // second attempt with the tactic based solver
    Z3_solver s2 = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")); Z3_solver_inc_ref(Z, s2);
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), O.solverMs); Z3_solver_set_params(Z, s2, p);
    for (auto e : slice) Z3_solver_assert(Z, s2, zbool(e));
    r = Z3_solver_check(Z, s2); ce.sat = r == Z3_L_TRUE;
    if (r == Z3_L_TRUE) { Z3_model m = Z3_solver_get_model(Z, s2); Z3_model_inc_ref(Z, m); std::set<u32> vs; for (auto e : slice) vs.insert(e->vars->begin(), e->vars->end());
      for (u32 v : vs) { Z3_ast o; u64 val = 0; if (Z3_model_eval(Z, m, zbv(P.varExpr[v]), true, &o)) { Z3_inc_ref(Z, o); Z3_get_numeral_uint64(Z, o, &val); Z3_dec_ref(Z, o); } ce.m.push_back({v, val}); } Z3_model_dec_ref(Z, m); }
    Z3_solver_dec_ref(Z, s2); Z3_params_dec_ref(Z, p);
  }
  double d = now() - t; if (getenv("MSE_PROF")) profAdd(d); S.solverTime += d; if (d > S.maxQuery) S.maxQuery = d;
  if (r == Z3_L_UNDEF) { S.unknown++; return UNK; }
  (ce.sat ? S.sat : S.unsat)++;
  if (ce.sat) { // trust nothing: the model must satisfy the slice under our own evaluator
    std::vector<u64> mm = st.model; for (auto &p : ce.m) { if (mm.size() <= p.first) mm.resize(p.first + 1, 0); mm[p.first] = p.second; }
    for (auto e : slice) if (!P.eval(e, mm)) fatal("solver model does not satisfy the constraints under the evaluator");
  }
  auto &slot = cache[key]; slot = ce; return apply(slot);
}
static inline u64 mval(State &st, Expr *e) { return P.eval(e, st.model); }
static void addCons(State &st, Expr *e) {
  if (e->op == E_CONST) return;
  if (e->op == E_AND && e->w == 1) { addCons(st, e->a); addCons(st, e->b); return; }
  if (e->op == E_NOT && e->a->op == E_OR) { addCons(st, P.notE(e->a->a)); addCons(st, P.notE(e->a->b)); return; }
  for (auto c : st.cons) if (c == e) return;
  st.cons.push_back(e);
}

// ---------------------------------------------------------------- errors
struct PathEnd { };
static std::set<std::string> seenErr; static std::map<std::string, std::pair<int,double>> prof;
static std::string locOf(const Instruction *I) { if (!I) return "?"; if (auto &d = I->getDebugLoc()) { auto *sc = cast<DIScope>(d.getScope()); return sc->getFilename().str() + ":" + std::to_string(d.getLine()); } return I->getFunction()->getName().str(); }
static std::string inputsJson(State &st) {
  std::string r = "["; bool f = true;
  for (auto &in : st.inputs) { if (!f) r += ","; f = false; r += "[\"" + esc(in.name) + "\",\""; for (auto b : in.bytes) { char h[4]; snprintf(h, 4, "%02x", (unsigned)mval(st, b)); r += h; } r += "\"]"; }
  return r + "]"; }
static const CInst *curI;
static std::string bt(State &st) { std::string r; for (size_t i = st.fr.size(); i-- > 0;) { auto &f = st.fr[i]; const Instruction *I = i + 1 == st.fr.size() ? (curI ? curI->I : nullptr) : st.fr[i + 1].call ? st.fr[i + 1].call->I : nullptr; if (!r.empty()) r += " < "; r += f.f->name + "@" + locOf(I); } return r; }
static void report(State &st, const std::string &kind, const std::string &msg) {
  std::string b = bt(st);
  std::string key = kind + "|" + msg + "|" + b;
  S.errors++;
  if (seenErr.count(key)) return;
  seenErr.insert(key);
  u64 n = SH->errors++;
  if (n > 40) return;
  emit("{\"t\":\"err\",\"kind\":\"" + esc(kind) + "\",\"msg\":\"" + esc(msg) + "\",\"at\":\"" + esc(b) + "\",\"inputs\":" + inputsJson(st) + "}");
}
[[noreturn]] static void err(State &st, const std::string &kind, const std::string &msg) { report(st, kind, msg); throw PathEnd(); }
static void profAdd(double d) { auto &p = prof[curI ? locOf(curI->I) + " op" + std::to_string(curI->op) : "?"]; p.first++; p.second += d; }
static void incomplete(const std::string &why) { S.incomplete[why]++; }

// ---------------------------------------------------------------- forking helpers
struct Refork { };  // re-execute the current instruction
static State *clone(State &st) { S.forks++; State *n = new State(st); return n; }
// make cond true in st; the other side becomes a new state re-executing the same instruction. returns chosen truth value in st.
// policy: follow the model.
static bool decide(State &st, Expr *c, bool reexecOther = true, State **other = nullptr) {
  if (c->op == E_CONST) return c->val;
  S.branches++;
  bool v = mval(st, c);
  Expr *neg = v ? P.notE(c) : c, *pos = v ? c : P.notE(c);
  std::vector<u64> nm; R r = query(st, neg, &nm);
  if (r == UNK) { incomplete("solver returned unknown for a branch"); r = UNSAT; }
  if (r == SAT) { State *o = clone(st); o->model = nm; addCons(*o, neg); addCons(st, pos); if (other) *other = o; else work.push_back(o); if (!reexecOther && !other) abort(); }
  return v;
}
// Does e's value depend on uninitialised data under the path condition?  (solver: two runs that differ only in that data)
static std::unordered_map<Expr *, Expr *> twins;
static Expr *twin(Expr *e) {
  if (!e->undef) return e;
  auto it = twins.find(e); if (it != twins.end()) return it->second;
  Expr *r;
  switch (e->op) {
    case E_VAR: r = P.var(P.vars[e->val].name + "'", e->w, true); break;
    case E_NOT: r = P.notE(twin(e->a)); break;
    case E_ITE: { Expr *c = twin(e->a), *t = twin(e->b), *f = twin(e->c); r = P.ite(c, t, f); break; }
    case E_ZEXT: r = P.zext(twin(e->a), e->w); break; case E_SEXT: r = P.sext(twin(e->a), e->w); break;
    case E_EXTRACT: r = P.extract(twin(e->a), e->val, e->w); break;
    case E_CONCAT: { Expr *h = twin(e->a), *l = twin(e->b); r = P.concat(h, l); break; }
    default: { Expr *a = twin(e->a), *b = twin(e->b); r = P.bin(e->op, a, b); } }
  return twins[e] = r; }
static bool dependsUndef(State &st, Expr *e) {
  if (!e || !e->undef) return false;
  Expr *d = P.notE(P.bin(E_EQ, e, twin(e))); if (d->op == E_CONST) return d->val;
  std::vector<u64> nm; R r = query(st, d, &nm); if (r == SAT) { st.model = nm; return true; }
  if (r == UNK) incomplete("solver returned unknown for an initialisation question");
  return false; }
static u64 concretize(State &st, Expr *e) {
  if (e->op == E_CONST) return e->val;
  auto it = st.known.find(e); if (it != st.known.end()) return it->second;
  u64 v = mval(st, e);
  Expr *eq = P.bin(E_EQ, e, P.k(v, e->w));
  decide(st, eq);
  st.known[e] = v;
  return v;
}
static u64 CV(State &st, const Val &v) { return v.e ? concretize(st, v.e) : v.c; }

// ---------------------------------------------------------------- memory ops
static ObjTab &tabOf(State &st, u64 a) { return a >= SBASE ? st.st : a >= HBASE ? st.h : st.g; }
static int findObj(State &st, u64 a, ObjTab *&t) { t = &tabOf(st, a); int i = t->find(a); return i; }
static std::string describe(State &st, u64 a) {
  char b[200]; if (a < 4096) { snprintf(b, 200, "null pointer (%llu)", (unsigned long long)a); return b; }
  ObjTab *t; int i = findObj(st, a, t); if (i < 0) return "wild pointer";
  Obj &o = *t->v[i]; snprintf(b, 200, "offset %lld of %s object '%s' of size %llu", (long long)(a - o.base), o.kind == K_HEAP ? "heap" : o.kind == K_GLOBAL ? "global" : "stack", o.name.c_str(), (unsigned long long)o.size); return b; }
static Obj &W(ObjTab *t, int i) { if (t->v[i]->rc > 1) { Obj *n = new Obj(*t->v[i].p); n->rc = 0; t->v[i] = ObjP(n); } return *t->v[i]; }
static std::string symAt(State &st, u64) { (void)st; return ""; }
// ---------------------------------------------------------------- data races (happens-before over the modelled synchronisation)
static void acquire(State &st, u64 a) { auto it = st.sync.find(a); if (it == st.sync.end()) return; Clock &c = st.vc[st.tid]; for (int k = 0; k < NT; k++) if (it->second[k] > c[k]) c[k] = it->second[k]; }
static void release(State &st, u64 a) { Clock &s = st.sync[a], &c = st.vc[st.tid]; for (int k = 0; k < NT; k++) if (c[k] > s[k]) s[k] = c[k]; c[st.tid]++; }
static void raceAcc(State &st, ObjTab *t, int i, u64 off, u64 n, bool wr, bool force = false) {
  if (!st.race || !n) return;
  if (!force && !st.fr.back().tracked) return;
  { const Obj &o = *t->v[i]; if (o.ro || o.name == "errno_" || o.name.compare(0, 4, "tls:") == 0) return;
    if (st.atomicAcc) { acquire(st, o.base + off); release(st, o.base + off); return; } }
  Obj &o = W(t, i); if (o.sh.empty()) o.sh.resize(o.size);
  Clock &c = st.vc[st.tid]; int me = st.tid, other = -1; bool ow = false; u64 bad = 0;
  for (u64 k = off; k < off + n && other < 0; k++) { Cell &x = o.sh[k];
    if (x.w && x.wt != me && x.w > c[x.wt]) { other = x.wt; ow = true; bad = k; break; }
    if (wr) { for (int q = 0; q < NT; q++) if (q != me && x.r[q] > c[q]) { other = q; bad = k; break; } x.wt = (u8)me; x.w = c[me]; }
    else x.r[me] = c[me]; }
  const Instruction *pi = other >= 0 ? o.la[other] : nullptr; o.la[me] = curI ? curI->I : nullptr;
  if (other >= 0) err(st, "data-race", std::string(wr ? "written" : "read") + " by one thread and " + (ow ? "written" : "read") + " by another at the same time: " + describe(st, o.base + bad) + ", other access about " + locOf(pi));
}
// check an access of n bytes at concrete address
static int chk(State &st, u64 a, u64 n, bool wr, ObjTab *&t) {
  if (a < 4096) err(st, "null-deref", std::string(wr ? "write through " : "read through ") + describe(st, a));
  int i = findObj(st, a, t);
  if (i < 0) err(st, "wild-pointer", wr ? "write through wild pointer" : "read through wild pointer");
  Obj &o = *t->v[i]; u64 off = a - o.base;
  if (off > o.size || n > o.size - off) {
    if (off > o.size + GAP / 2) err(st, "wild-pointer", std::string(wr ? "write through " : "read through ") + "wild pointer");
    err(st, "out-of-bounds", std::string(wr ? "write of " : "read of ") + std::to_string(n) + " bytes at " + describe(st, a)); }
  if (!o.alive) err(st, o.kind == K_HEAP ? "use-after-free" : "use-after-scope", std::string(wr ? "write" : "read") + " at " + describe(st, a));
  if (wr && o.ro) err(st, "write-to-const", "write to constant " + describe(st, a));
  if (st.race) raceAcc(st, t, i, off, n, wr);
  return i;
}
static unsigned undefCnt = 0;
static Expr *byteAt(ObjTab *t, int i, u64 off) {
  Obj &o = *t->v[i];
  if (!o.s.empty() && o.s[off]) return o.s[off];
  if (!o.un.empty() && o.un[off]) { Obj &w = W(t, i); if (w.s.empty()) w.s.assign(w.size, nullptr); Expr *u = P.var("undef" + std::to_string(undefCnt++), 8, true); w.s[off] = u; return u; }
  return P.k(o.c[off], 8);
}
static bool isUndef(const Obj &o, u64 off) { if (!o.s.empty() && o.s[off]) return o.s[off]->undef; return !o.un.empty() && o.un[off]; }
static bool allConc(const Obj &o, u64 off, u64 n) { if (!o.s.empty()) for (u64 k = 0; k < n; k++) if (o.s[off + k]) return false; if (!o.un.empty()) for (u64 k = 0; k < n; k++) if (o.un[off + k]) return false; return true; }
static Val loadAt(State &st, ObjTab *t, int i, u64 off, unsigned w) {
  unsigned n = (w + 7) / 8; Obj &o = *t->v[i];
  if (allConc(o, off, n)) { u64 v = 0; memcpy(&v, &o.c[off], n); return C(v & mask(w)); }
  Expr *r = nullptr; for (unsigned k = 0; k < n; k++) { Expr *b = byteAt(t, i, off + k); r = r ? P.concat(b, r) : b; }
  if (r->w > w) r = P.extract(r, 0, w);
  return V(r);
}
static void storeByte(Obj &o, u64 off, Expr *b) {
  if (b->op == E_CONST) { o.c[off] = (u8)b->val; if (!o.s.empty()) o.s[off] = nullptr; }
  else { if (o.s.empty()) o.s.assign(o.size, nullptr); o.s[off] = b; }
  if (!o.un.empty()) o.un[off] = 0;
}
static void storeAt(ObjTab *t, int i, u64 off, Val v, unsigned w) {
  unsigned n = (w + 7) / 8; Obj &o = W(t, i);
  if (!v.e) { memcpy(&o.c[off], &v.c, n); if (!o.s.empty()) for (unsigned k = 0; k < n; k++) o.s[off + k] = nullptr; if (!o.un.empty()) for (unsigned k = 0; k < n; k++) o.un[off + k] = 0; return; }
  Expr *e = v.e; if (e->w < n * 8) e = P.zext(e, n * 8);
  for (unsigned k = 0; k < n; k++) storeByte(o, off + k, P.extract(e, k * 8, 8));
}
// Resolve a possibly symbolic address: returns object index with all remaining values of the address inside it; single=true when address is concrete.
static int resolve(State &st, const Val &a, u64 n, bool wr, ObjTab *&t, Expr *&symOff, u64 &off) {
  symOff = nullptr;
  if (!a.e) { int i = chk(st, a.c, n, wr, t); off = a.c - t->v[i]->base; return i; }
  if (dependsUndef(st, a.e)) err(st, "uninitialised", "address depends on uninitialised data");
  auto kn = st.known.find(a.e); if (kn != st.known.end()) { int i = chk(st, kn->second, n, wr, t); off = kn->second - t->v[i]->base; return i; }
  u64 v = mval(st, a.e);
  int i = chk(st, v, n, wr, t);   // the model's value itself is out of bounds -> error with a witness
  Obj &o = *t->v[i];
  Expr *o64 = P.bin(E_SUB, a.e, P.k(o.base, 64));
  Expr *in = P.bin(E_ULE, o64, P.k(o.size - n, 64));
  decide(st, in);                  // other side re-executes with its own model
  if ((o.size <= O.iteMax || (o.ro && !wr && o.size <= 300)) && o64->op != E_CONST) { symOff = o64; return i; }
  u64 c = concretize(st, a.e); off = c - o.base; return i;
}
static void offRange(State &st, Expr *o64, u64 size, u64 n, std::vector<u64> &offs) {
  // feasible offsets: cheap structural range, exact otherwise through ite semantics
  u64 hi = size - n, step = 1;
  Expr *e = o64; u64 base = 0; 
  if (e->op == E_ADD && e->b->op == E_CONST) { base = e->b->val; e = e->a; }
  bool small = false; // multiplication that cannot wrap
  if (e->op == E_SHL && e->b->op == E_CONST) step = 1ULL << e->b->val;   // powers of two: exact modulo 2^64
  else if (e->op == E_MUL && e->b->op == E_CONST && e->a->op == E_ZEXT && e->a->a->w <= 32 && e->b->val < (1u << 20) && base < size) { step = e->b->val; small = true; }
  if (small || (step & (step - 1)) == 0) { u64 s = base % step; if (base >= size) s = base % step; for (u64 k = s; k <= hi; k += step) offs.push_back(k); }
  else for (u64 k = 0; k <= hi; k++) offs.push_back(k);
  (void)st;
}
static Val loadMem(State &st, const Val &a, unsigned w) {
  ObjTab *t; Expr *so; u64 off; unsigned n = (w + 7) / 8; int i = resolve(st, a, n, false, t, so, off);
  if (!so) return loadAt(st, t, i, off, w);
  std::vector<u64> offs; offRange(st, so, t->v[i]->size, n, offs);
  Expr *r = nullptr; for (size_t k = offs.size(); k-- > 0;) { Expr *v = X(loadAt(st, t, i, offs[k], w), w); r = r ? P.ite(P.bin(E_EQ, so, P.k(offs[k], 64)), v, r) : v; }
  return V(r);
}
static void storeMem(State &st, const Val &a, Val v, unsigned w) {
  ObjTab *t; Expr *so; u64 off; unsigned n = (w + 7) / 8; int i = resolve(st, a, n, true, t, so, off);
  if (!so) { storeAt(t, i, off, v, w); return; }
  std::vector<u64> offs; offRange(st, so, t->v[i]->size, n, offs); Expr *e = X(v, w); if (e->w < n * 8) e = P.zext(e, n * 8);
  for (u64 o : offs) { Expr *c = P.bin(E_EQ, so, P.k(o, 64)); for (unsigned k = 0; k < n; k++) { Expr *old = byteAt(t, i, o + k); storeByte(W(t, i), o + k, P.ite(c, P.extract(e, k * 8, 8), old)); } }
}
static u64 newObj(State &st, OKind k, u64 size, bool zero, const std::string &name) {
  Obj *o = new Obj; o->kind = k; o->size = size; o->name = name; o->c.assign(size, 0); if (!zero && size) o->un.assign(size, 1);
  u64 &nx = k == K_HEAP ? st.hNext : st.sNext; o->base = nx; nx += ((size + 15) & ~15ULL) + GAP; (k == K_HEAP ? st.h : st.st).v.push_back(ObjP(o));
  if (k == K_HEAP) st.live++;
  return o->base;
}
static u64 heapAlloc(State &st, u64 size, bool zero, const std::string &what) {
  st.nalloc++;
  if (st.failAt >= 0 && st.failAt-- == 0) return 0;
  if (size > (1ULL << 26)) return 0; // unrealistically large request: fails, as a real allocator would for huge sizes
  if (st.reuse) for (size_t k = st.freed.size(); k-- > 0 && k + 4096 > st.freed.size();) { if (st.freed[k].second != size) continue; ObjTab *t; u64 a = st.freed[k].first; int i = findObj(st, a, t); if (i < 0 || t->v[i]->alive) continue; // as allocators do: the block of that size that was released last
    st.freed.erase(st.freed.begin() + k); Obj &o = W(t, i); o.alive = true; o.name = what + " at " + (curI ? locOf(curI->I) : "?"); o.c.assign(size, 0); o.s.clear(); o.un.clear(); if (!zero && size) o.un.assign(size, 1); st.live++; return a; }
  return newObj(st, K_HEAP, size, zero, what + " at " + (curI ? locOf(curI->I) : "?")); }
static void heapFree(State &st, u64 a, const char *what) {
  if (!a) return;
  ObjTab *t; int i = findObj(st, a, t);
  if (i < 0 || t->v[i]->base != a || t->v[i]->kind != K_HEAP) err(st, "invalid-free", std::string(what) + " of " + describe(st, a));
  if (!t->v[i]->alive) err(st, "double-free", std::string(what) + " of already freed " + t->v[i]->name);
  raceAcc(st, t, i, 0, t->v[i]->size, true);
  Obj &o = W(t, i); o.alive = false; o.c.clear(); o.c.shrink_to_fit(); o.s.clear(); o.s.shrink_to_fit(); o.un.clear(); o.un.shrink_to_fit(); st.live--; if (st.reuse) st.freed.push_back({a, o.size});
}
static void copyMem(State &st, u64 d, u64 s, u64 n, bool overlapOk) {
  if (!n) return;
  ObjTab *ts, *td; int is = chk(st, s, n, false, ts); int id = chk(st, d, n, true, td);
  if (!overlapOk && d != s && ((d < s && s - d < n) || (s < d && d - s < n))) err(st, "overlap", "memcpy with overlapping regions");
  Obj tmp; { Obj &so = *ts->v[is]; u64 off = s - so.base; tmp.c.assign(so.c.begin() + off, so.c.begin() + off + n); if (!so.s.empty()) tmp.s.assign(so.s.begin() + off, so.s.begin() + off + n); if (!so.un.empty()) tmp.un.assign(so.un.begin() + off, so.un.begin() + off + n); }
  Obj &o = W(td, id); u64 off = d - o.base; memcpy(&o.c[off], tmp.c.data(), n);
  if (!tmp.s.empty() || !o.s.empty()) { if (o.s.empty()) o.s.assign(o.size, nullptr); for (u64 k = 0; k < n; k++) o.s[off + k] = tmp.s.empty() ? nullptr : tmp.s[k]; }
  if (!tmp.un.empty() || !o.un.empty()) { if (o.un.empty()) o.un.assign(o.size, 0); for (u64 k = 0; k < n; k++) { o.un[off + k] = tmp.un.empty() ? 0 : tmp.un[k]; if (o.un[off + k] && !o.s.empty() && o.s[off + k]) o.un[off + k] = 0; } }
}
static void setMem(State &st, u64 d, const Val &v, u64 n) {
  if (!n) return;
  ObjTab *t; int i = chk(st, d, n, true, t); Obj &o = W(t, i); u64 off = d - o.base;
  if (!v.e) { memset(&o.c[off], (int)v.c, n); if (!o.s.empty()) for (u64 k = 0; k < n; k++) o.s[off + k] = nullptr; if (!o.un.empty()) for (u64 k = 0; k < n; k++) o.un[off + k] = 0; }
  else { Expr *b = P.extract(v.e, 0, 8); for (u64 k = 0; k < n; k++) storeByte(o, off + k, b); }
}
static std::string cstr(State &st, u64 a) { std::string r; if (!a) return "(null)"; for (;;) { ObjTab *t; int i = chk(st, a, 1, false, t); Val v = loadAt(st, t, i, a - t->v[i]->base, 8); u8 c = v.e ? (u8)mval(st, v.e) : v.c; if (!c || r.size() > 400) break; r += c; a++; } return r; }

// ---------------------------------------------------------------- compile functions
static unsigned bw(Type *t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; }
static void flat(Type *t, u64 off, std::vector<Field> &f) {
  if (auto *s = dyn_cast<StructType>(t)) { auto *l = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flat(s->getElementType(i), off + l->getElementOffset(i), f); }
  else if (auto *a = dyn_cast<ArrayType>(t)) { for (u64 i = 0; i < a->getNumElements(); i++) flat(a->getElementType(), off + i * DL->getTypeAllocSize(a->getElementType()), f); }
  else if (auto *v = dyn_cast<FixedVectorType>(t)) { for (unsigned i = 0; i < v->getNumElements(); i++) flat(v->getElementType(), off + i * DL->getTypeAllocSize(v->getElementType()), f); }
  else { unsigned w = bw(t); if (!w || w > 64) fatal("unsupported type"); f.push_back({(u32)off, (u8)w}); }
}
static u64 constAddr(const Constant *c);
static Val constVal(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) fatal("wide const"); return C(i->getZExtValue()); }
  if (isa<ConstantPointerNull>(c)) return C(0);
  if (auto *f = dyn_cast<ConstantFP>(c)) return C(f->getValueAPF().bitcastToAPInt().getZExtValue());
  if (isa<UndefValue>(c)) { unsigned w = bw(c->getType()); return V(P.var("undef_local", w ? w : 8, true)); }
  if (isa<GlobalValue>(c)) return C(constAddr(c));
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    switch (e->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) fatal("gep const"); return C(constVal(e->getOperand(0)).c + off.getZExtValue()); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(e->getOperand(0));
      case Instruction::Sub: return C(constVal(e->getOperand(0)).c - constVal(e->getOperand(1)).c);
      case Instruction::Add: return C(constVal(e->getOperand(0)).c + constVal(e->getOperand(1)).c);
      default: fatal("const expr");
    }
  }
  fatal("unsupported constant");
}
static u64 constAddr(const Constant *c) { auto *g = cast<GlobalValue>(c); if (auto *al = dyn_cast<GlobalAlias>(g)) return constVal(al->getAliasee()).c; if (auto *f = dyn_cast<Function>(g)) { auto it = fnAddr.find(const_cast<Function *>(f)); if (it == fnAddr.end()) fatal("fn addr"); return it->second; } auto it = gAddr.find(g); if (it == gAddr.end()) fatal("global " + g->getName().str()); return it->second; }
static void flatConst(const Constant *c, std::vector<Val> &o) {
  Type *t = c->getType();
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) { Constant *e = c->getAggregateElement(i); if (!e) fatal("agg const"); flatConst(e, o); }
  } else o.push_back(constVal(c)); }
#include "builtins.h"
static CFunc *compile(Function *F) {
  auto it = compiled.find(F); if (it != compiled.end()) return it->second;
  CFunc *cf = new CFunc; compiled[F] = cf; cf->F = F; cf->name = F->getName().str(); { auto *sp = F->getSubprogram(); std::string fn = sp ? sp->getFilename().str() : ""; if (sp && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn; cf->origin = fn.find("/minilibc/") != std::string::npos ? 2 : fn.empty() || fn.find("/harness/") != std::string::npos ? 1 : 0; }
  std::map<const Value *, std::pair<u32, u32>> reg; std::map<const BasicBlock *, u32> start;
  auto alloc = [&](const Value *v) { std::vector<Field> f; flat(v->getType(), 0, f); reg[v] = {cf->nregs, (u32)f.size()}; cf->nregs += f.size(); };
  for (auto &a : F->args()) { alloc(&a); cf->params.push_back(reg[&a]); }
  for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy()) alloc(&I);
  auto op = [&](const Value *v, u32 k = 0) -> Opnd { Opnd o; if (auto *c = dyn_cast<Constant>(v)) { std::vector<Val> f; flatConst(c, f); o.c = f[k]; } else if (isa<MetadataAsValue>(v)) {} else { auto i = reg.find(v); if (i == reg.end()) fatal("operand"); o.reg = i->second.first + k; } return o; };
  auto width = [&](const Value *v) { return bw(v->getType()); };
  struct Fix { u32 inst, edge; const BasicBlock *from, *to; }; std::vector<Fix> fix;
  for (auto &B : *F) {
    start[&B] = cf->code.size();
    for (auto &I : B) {
      if (isa<PHINode>(I)) continue;
      CInst ci; ci.op = I_BAD; ci.I = &I; if (!I.getType()->isVoidTy()) { ci.dst = reg[&I].first; ci.n = reg[&I].second; ci.w = bw(I.getType()); }
      if (auto *b = dyn_cast<BinaryOperator>(&I)) { ci.a = op(b->getOperand(0)); ci.b = op(b->getOperand(1)); ci.sub = b->getOpcode(); ci.op = I.getType()->isFloatingPointTy() ? I_FBIN : I_BIN; if (I.getType()->isVectorTy()) ci.op = I_BAD; }
      else if (auto *c = dyn_cast<ICmpInst>(&I)) { ci.op = I_ICMP; ci.sub = c->getPredicate(); ci.a = op(c->getOperand(0)); ci.b = op(c->getOperand(1)); ci.w2 = width(c->getOperand(0)); }
      else if (auto *c = dyn_cast<FCmpInst>(&I)) { ci.op = I_FCMP; ci.sub = c->getPredicate(); ci.a = op(c->getOperand(0)); ci.b = op(c->getOperand(1)); ci.w2 = width(c->getOperand(0)); }
      else if (auto *c = dyn_cast<CastInst>(&I)) { ci.sub = c->getOpcode(); ci.a = op(c->getOperand(0)); ci.w2 = width(c->getOperand(0)); ci.op = (I.getType()->isFloatingPointTy() || c->getOperand(0)->getType()->isFloatingPointTy()) && c->getOpcode() != Instruction::BitCast ? I_FCAST : I_CAST; ci.flt = I.getType()->isFloatTy(); }
      else if (auto *l = dyn_cast<LoadInst>(&I)) { ci.op = I_LOAD; ci.imm2 = l->isAtomic(); ci.a = op(l->getPointerOperand()); flat(I.getType(), 0, ci.fields); }
      else if (auto *s = dyn_cast<StoreInst>(&I)) { ci.op = I_STORE; ci.imm2 = s->isAtomic(); ci.a = op(s->getPointerOperand()); flat(s->getValueOperand()->getType(), 0, ci.fields); for (u32 k = 0; k < ci.fields.size(); k++) ci.args.push_back(op(s->getValueOperand(), k)); }
      else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        ci.op = I_GEP; ci.a = op(g->getPointerOperand()); u64 off = 0;
        for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) { Value *ix = gti.getOperand();
          if (auto *s = gti.getStructTypeOrNull()) off += DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else { u64 sz = DL->getTypeAllocSize(gti.getIndexedType()); if (auto *k = dyn_cast<ConstantInt>(ix)) off += (u64)k->getSExtValue() * sz; else ci.idx.push_back({op(ix), {sz, (u8)width(ix)}}); } }
        ci.imm = off; }
      else if (auto *al = dyn_cast<AllocaInst>(&I)) { ci.op = I_ALLOCA; ci.imm = DL->getTypeAllocSize(al->getAllocatedType()); ci.a = op(al->getArraySize()); }
      else if (auto *br = dyn_cast<BranchInst>(&I)) { ci.op = br->isConditional() ? I_BR : I_JMP; if (br->isConditional()) ci.a = op(br->getCondition()); ci.edges.resize(br->getNumSuccessors()); for (u32 k = 0; k < br->getNumSuccessors(); k++) fix.push_back({(u32)cf->code.size(), k, &B, br->getSuccessor(k)}); }
      else if (auto *sw = dyn_cast<SwitchInst>(&I)) { ci.op = I_SWITCH; ci.a = op(sw->getCondition()); ci.w2 = width(sw->getCondition()); ci.edges.resize(1 + sw->getNumCases()); fix.push_back({(u32)cf->code.size(), 0, &B, sw->getDefaultDest()}); u32 k = 1; for (auto &cs : sw->cases()) { ci.cases.push_back(cs.getCaseValue()->getZExtValue()); fix.push_back({(u32)cf->code.size(), k++, &B, cs.getCaseSuccessor()}); } }
      else if (auto *r = dyn_cast<ReturnInst>(&I)) { ci.op = I_RET; if (r->getReturnValue()) { std::vector<Field> f; flat(r->getReturnValue()->getType(), 0, f); for (u32 k = 0; k < f.size(); k++) ci.args.push_back(op(r->getReturnValue(), k)); } }
      else if (auto *s = dyn_cast<SelectInst>(&I)) { ci.op = I_SELECT; ci.a = op(s->getCondition()); for (u32 k = 0; k < ci.n; k++) { ci.args.push_back(op(s->getTrueValue(), k)); ci.args.push_back(op(s->getFalseValue(), k)); } flat(I.getType(), 0, ci.fields); }
      else if (auto *x = dyn_cast<ExtractValueInst>(&I)) { // find flattened index
        Type *t = x->getAggregateOperand()->getType(); u32 k = 0; for (unsigned ix : x->indices()) { for (unsigned q = 0; q < ix; q++) { std::vector<Field> f; flat(t->isStructTy() ? t->getStructElementType(q) : t->getArrayElementType(), 0, f); k += f.size(); } t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
        ci.op = I_COPY; for (u32 q = 0; q < ci.n; q++) ci.args.push_back(op(x->getAggregateOperand(), k + q)); }
      else if (auto *x = dyn_cast<InsertValueInst>(&I)) {
        Type *t = I.getType(); u32 k = 0; for (unsigned ix : x->indices()) { for (unsigned q = 0; q < ix; q++) { std::vector<Field> f; flat(t->isStructTy() ? t->getStructElementType(q) : t->getArrayElementType(), 0, f); k += f.size(); } t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
        std::vector<Field> f; flat(x->getInsertedValueOperand()->getType(), 0, f); ci.op = I_COPY; for (u32 q = 0; q < ci.n; q++) ci.args.push_back(q >= k && q < k + f.size() ? op(x->getInsertedValueOperand(), q - k) : op(x->getAggregateOperand(), q)); }
      else if (isa<FreezeInst>(&I)) { ci.op = I_COPY; for (u32 q = 0; q < ci.n; q++) ci.args.push_back(op(I.getOperand(0), q)); }
      else if (isa<UnreachableInst>(&I)) ci.op = I_UNREACH;
      else if (isa<FenceInst>(&I)) ci.op = I_NOP;
      else if (I.getOpcode() == Instruction::FNeg) { ci.op = I_FNEG; ci.a = op(I.getOperand(0)); ci.w2 = width(&I); }
      else if (auto *r = dyn_cast<AtomicRMWInst>(&I)) { ci.op = I_RMW; ci.a = op(r->getPointerOperand()); ci.b = op(r->getValOperand()); ci.sub = r->getOperation(); }
      else if (auto *r = dyn_cast<AtomicCmpXchgInst>(&I)) { ci.op = I_CMPXCHG; ci.a = op(r->getPointerOperand()); ci.b = op(r->getCompareOperand()); ci.c = op(r->getNewValOperand()); ci.w2 = width(r->getCompareOperand()); }
      else if (auto *cl = dyn_cast<CallInst>(&I)) {
        if (isa<DbgInfoIntrinsic>(cl)) continue;
        ci.op = I_CALL; Function *cal = dyn_cast<Function>(cl->getCalledOperand()->stripPointerCasts());
        if (!cal) if (auto *al = dyn_cast<GlobalAlias>(cl->getCalledOperand()->stripPointerCasts())) cal = dyn_cast<Function>(al->getAliaseeObject());
        ci.callee = cal; if (!cal) { if (cl->isInlineAsm()) { StringRef as = cast<InlineAsm>(cl->getCalledOperand())->getAsmString(); if (as.empty() && I.getType()->isVoidTy()) { ci.op = I_NOP; cf->code.push_back(ci); continue; } ci.op = I_BAD; } else ci.a = op(cl->getCalledOperand()); }
        for (auto &ar : cl->args()) {
          if (ar->getType()->isMetadataTy()) continue;
          std::vector<Field> f; flat(ar->getType(), 0, f);
          if (cl->isByValArgument(ar.getOperandNo())) { // pass a copy: mark with special width 0xff and size
            ci.args.push_back(op(ar.get())); ci.argw.push_back(0xff); ci.cases.push_back(DL->getTypeAllocSize(cl->getParamByValType(ar.getOperandNo()))); continue; }
          for (u32 k = 0; k < f.size(); k++) { ci.args.push_back(op(ar.get(), k)); ci.argw.push_back(f[k].w); } }
        if (cal) { ci.builtin = builtinId(cal); 
          if (cal->isDeclaration() && !ci.builtin) { std::string n = "moth_" + cal->getName().str(); if (Function *r = M->getFunction(n)) if (!r->isDeclaration()) ci.callee = r; } } }
      cf->code.push_back(std::move(ci));
    }
  }
  for (auto &f : fix) {
    Edge &e = cf->code[f.inst].edges[f.edge]; e.target = start[f.to];
    for (auto &I : *f.to) { auto *p = dyn_cast<PHINode>(&I); if (!p) break; const Value *v = p->getIncomingValueForBlock(f.from); auto rr = reg[p]; for (u32 k = 0; k < rr.second; k++) e.copies.push_back({rr.first + k, op(v, k)}); }
  }
  return cf;
}

// ---------------------------------------------------------------- executing
static inline Val get(State &st, const Opnd &o) { return o.reg == ~0u ? o.c : st.fr.back().r[o.reg]; }
static void takeEdge(State &st, const Edge &e) {
  Frame &f = st.fr.back();
  if (e.copies.size() == 1) { f.r[e.copies[0].first] = get(st, e.copies[0].second); }
  else if (!e.copies.empty()) { std::vector<Val> t; t.reserve(e.copies.size()); for (auto &c : e.copies) t.push_back(get(st, c.second)); for (size_t i = 0; i < t.size(); i++) f.r[e.copies[i].first] = t[i]; }
  f.pc = e.target;
}
static double D(u64 b) { double d; memcpy(&d, &b, 8); return d; } static u64 UD(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static double FP(u64 b, unsigned w) { if (w == 32) { float f; u32 x = (u32)b; memcpy(&f, &x, 4); return f; } return D(b); }
static u64 UFP(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } return UD(d); }
static bool branchOn(State &st, const Val &c, const CInst &ci, int te, int fe) {
  if (!c.e) { takeEdge(st, ci.edges[c.c ? te : fe]); return true; }
  if (dependsUndef(st, c.e)) err(st, "uninitialised", "branch depends on uninitialised data");
  State *o = nullptr; bool v = decide(st, c.e, false, &o);
  if (o) { takeEdge(*o, ci.edges[v ? fe : te]); o->depth++; work.push_back(o); }
  takeEdge(st, ci.edges[v ? te : fe]); return true;
}
static void enter(State &st, Function *F, const std::vector<Val> &args, const CInst *call, const std::vector<u8> *argw) {
  CFunc *cf = compile(F); cf->calls++;
  if (st.fr.size() > 2000) err(st, "stack-overflow", "recursion deeper than 2000 calls");
  Frame f; f.f = cf; f.tracked = cf->origin == 2 ? !st.fr.empty() && st.fr.back().tracked : cf->origin == 0; f.r.resize(cf->nregs); f.stackMark = st.st.v.size(); f.call = call;
  size_t ai = 0; for (auto &p : cf->params) for (u32 k = 0; k < p.second && ai < args.size(); k++) f.r[p.first + k] = args[ai++];
  if (F->isVarArg()) { u64 n = args.size() - std::min(ai, args.size()); u64 sz = n * 8; f.va = newObj(st, K_STACK, sz ? sz : 8, true, "va_area"); ObjTab *t = &st.st; int i = t->v.size() - 1; for (u64 k = 0; ai < args.size(); ai++, k++) { Val v = args[ai]; unsigned w = argw ? (*argw)[ai] : 64; if (v.e && v.e->w < 64) v = V(P.zext(v.e, 64)); storeAt(t, i, k * 8, v, 64); (void)w; } }
  st.fr.push_back(std::move(f));
}
static void popFrame(State &st) { u32 m = st.fr.back().stackMark; st.st.v.resize(m); st.fr.pop_back(); }
static void doRet(State &st, const std::vector<Val> &vals) {
  const CInst *call = st.fr.back().call; popFrame(st);
  if (st.fr.empty()) throw PathEnd();
  Frame &f = st.fr.back(); if (call->dst != ~0u) for (u32 k = 0; k < call->n && k < vals.size(); k++) f.r[call->dst + k] = vals[k];
  f.pc++;
}
static void endPath(State &st, const char *how) {
  S.completed++; SH->paths++;
  u64 n = SH->paths; bool pick = n <= 4 || (n & (n - 1)) == 0 || n % 61 == 7;
  if (pick && SH->samples < (u64)O.samples) { SH->samples++; emit("{\"t\":\"path\",\"end\":\"" + std::string(how) + "\",\"insts\":" + std::to_string(st.insts) + ",\"cons\":" + std::to_string(st.cons.size()) + ",\"inputs\":" + inputsJson(st) + "}"); }
}
struct Done { };
#include "exec.h"
int main(int argc, char **argv) {
  std::string bc;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--out") O.out = nx(); else if (a == "--entry") O.entry = nx(); else if (a == "--jobs") O.jobs = stoi(nx()); else if (a == "--max-insts") O.maxInsts = stoull(nx()); else if (a == "--time") O.time = stod(nx()); else if (a == "--solver-ms") O.solverMs = stoi(nx()); else if (a == "--max-errors") O.maxErrors = stoi(nx()); else if (a == "--arg") O.arg = stoull(nx()); else if (a == "--samples") O.samples = stoi(nx()); else if (a == "--ite-max") O.iteMax = stoull(nx()); else if (a == "--trace") O.trace = true; else if (a == "--max-paths") O.maxPaths = stoull(nx()); else bc = a; }
  outFd = open(O.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  T0 = now();
  SH = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); SH->active = 1;
  LLVMContext ctx; SMDiagnostic d; auto mod = parseIRFile(bc, d, ctx); if (!mod) fatal("cannot parse " + bc + ": " + d.getMessage().str()); M = mod.get(); DL = &M->getDataLayout();
  Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context_rc(cfg);
  Z3_set_error_handler(Z, [](Z3_context c, Z3_error_code e) { fatal(std::string("z3: ") + Z3_get_error_msg(c, e)); });
  ZS = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, ZS);
  { Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), std::min(O.solverMs, 4000u)); Z3_solver_set_params(Z, ZS, p); }
  return runAll();
}
