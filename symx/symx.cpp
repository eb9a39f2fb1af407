// symx: a small symbolic executor for LLVM bitcode (LLVM 18) deciding assertions with Z3.
#include <atomic>
#include <thread>
#include <unistd.h>
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/SmallString.h>
#include <unistd.h>
#include <z3.h>
#include <map>
#include <set>
#include <unordered_set>
#include <memory>
#include <cstring>
#include <cmath>
#include <time.h>
#include <functional>
#include <algorithm>
#include <sys/resource.h>
using namespace llvm;
namespace sx {
static Ctx X;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ solver
struct Solver {
  Z3_context z; Z3_solver s; std::vector<Node *> stk;
  u64 queries = 0, sat = 0, unsat = 0, unknown = 0; double time = 0, maxq = 0, lastq = 0; unsigned timeout_ms = 60000; bool dump = false; std::atomic<double> qstart{0};
  static void onerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "symx: z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(4); }
  void init() {
    Z3_config cfg = Z3_mk_config(); z = Z3_mk_context(cfg); Z3_set_error_handler(z, onerr);
    const char *sm = getenv("SX_SOLVER"); s = (sm && *sm == 's') ? Z3_mk_simple_solver(z) : Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV")); Z3_solver_inc_ref(z, s);
    Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p);
    if(timeout_ms) Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), timeout_ms); Z3_solver_set_params(z, s, p);
  }
  Z3_ast bv1(Z3_ast b) { return Z3_mk_ite(z, b, num(1, 1), num(1, 0)); }
  Z3_ast num(u32 w, u64 v) { return Z3_mk_unsigned_int64(z, v, Z3_mk_bv_sort(z, w)); }
  Z3_ast tr(Node *root) { // iterative post-order
    std::vector<Node *> st{root};
    while (!st.empty()) { Node *n = st.back(); if (n->z) { st.pop_back(); continue; }
      bool rdy = true; for (Node *k : {n->a, n->b, n->c}) if (k && !k->z) { st.push_back(k); rdy = false; }
      if (!rdy) continue; n->z = tr1(n); st.pop_back(); }
    return (Z3_ast)root->z;
  }
  Z3_ast tr1(Node *n) {
    Z3_ast a = n->a ? (Z3_ast)n->a->z : nullptr, b = n->b ? (Z3_ast)n->b->z : nullptr, c = n->c ? (Z3_ast)n->c->z : nullptr;
    switch (n->op) {
      case O_CONST: if (n->w <= 64) return num(n->w, n->k.getZExtValue()); else { SmallString<80> t; n->k.toStringUnsigned(t); return Z3_mk_numeral(z, t.c_str(), Z3_mk_bv_sort(z, n->w)); }
      case O_VAR: { std::string nm = "v" + std::to_string(n->lo); return Z3_mk_const(z, Z3_mk_string_symbol(z, nm.c_str()), Z3_mk_bv_sort(z, n->w)); }
      case O_ADD: return Z3_mk_bvadd(z, a, b); case O_SUB: return Z3_mk_bvsub(z, a, b); case O_MUL: return Z3_mk_bvmul(z, a, b);
      case O_UDIV: return Z3_mk_bvudiv(z, a, b); case O_SDIV: return Z3_mk_bvsdiv(z, a, b); case O_UREM: return Z3_mk_bvurem(z, a, b); case O_SREM: return Z3_mk_bvsrem(z, a, b);
      case O_AND: return Z3_mk_bvand(z, a, b); case O_OR: return Z3_mk_bvor(z, a, b); case O_XOR: return Z3_mk_bvxor(z, a, b);
      case O_SHL: return Z3_mk_bvshl(z, a, b); case O_LSHR: return Z3_mk_bvlshr(z, a, b); case O_ASHR: return Z3_mk_bvashr(z, a, b);
      case O_CONCAT: return Z3_mk_concat(z, a, b); case O_EXTRACT: return Z3_mk_extract(z, n->lo + n->w - 1, n->lo, a);
      case O_SEXT: return Z3_mk_sign_ext(z, n->w - n->a->w, a);
      case O_EQ: return bv1(Z3_mk_eq(z, a, b)); case O_ULT: return bv1(Z3_mk_bvult(z, a, b)); case O_ULE: return bv1(Z3_mk_bvule(z, a, b));
      case O_SLT: return bv1(Z3_mk_bvslt(z, a, b)); case O_SLE: return bv1(Z3_mk_bvsle(z, a, b));
      case O_ITE: return Z3_mk_ite(z, Z3_mk_eq(z, a, num(1, 1)), b, c);
    }
    abort();
  }
  Z3_ast asBool(Node *n) { return Z3_mk_eq(z, tr(n), num(1, 1)); }
  // 1 sat, 0 unsat, -1 unknown.  Every path constraint is guarded by an assumption literal, so terms are bit-blasted once per run.
  std::vector<Node *> guarded; unsigned asserted = 0;
  Z3_ast guard(Node *n) {
    if (!n->g) { std::string nm = "g" + std::to_string(n->id); Z3_ast g = Z3_mk_const(z, Z3_mk_string_symbol(z, nm.c_str()), Z3_mk_bool_sort(z)); n->g = g;
      Z3_solver_assert(z, s, Z3_mk_implies(z, g, asBool(n))); guarded.push_back(n); asserted++; }
    return (Z3_ast)n->g;
  }
  int check(const std::vector<Node *> &pc, Node *extra, std::vector<u64> *model) {
    double t0 = now(); if (asserted > resetAt) { Z3_solver_reset(z, s); for (Node *n : guarded) n->g = nullptr; guarded.clear(); asserted = 0; }
    std::vector<Z3_ast> as; for (Node *n : pc) as.push_back(guard(n)); if (extra) as.push_back(guard(extra));
    qstart = t0; Z3_lbool r = Z3_solver_check_assumptions(z, s, as.size(), as.data()); qstart = 0;
    queries++; int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (res == 1) { sat++; if (model) { Z3_model m = Z3_solver_get_model(z, s); Z3_model_inc_ref(z, m); model->assign(X.vars.size(), 0);
        for (size_t i = 0; i < X.vars.size(); i++) if (X.vars[i]->z) { Z3_ast o; if (Z3_model_eval(z, m, (Z3_ast)X.vars[i]->z, true, &o)) { uint64_t v = 0; Z3_get_numeral_uint64(z, o, &v); (*model)[i] = v; } }
        Z3_model_dec_ref(z, m); } }
    else if (res == 0) unsat++; else unknown++;
    double d = now() - t0; time += d; lastq = d; if (d > maxq) maxq = d;
    if (res == -1) { Z3_solver_reset(z, s); for (Node *n : guarded) n->g = nullptr; guarded.clear(); asserted = 0; }
    return res;
  }
  unsigned resetAt = 200;
};
static Solver S;

// ------------------------------------------------------------------ memory
enum Kind : u8 { K_GLOBAL, K_STACK, K_HEAP, K_EXC };
struct Obj { u64 base; u64 size; int ref = 0; Kind kind; bool ro = false; bool alive = true; u32 align = 16; std::string name;
  std::vector<u8> d; std::vector<Node *> s; u8 tag = 0; };
struct ORef { Obj *o = nullptr; ORef() {} ORef(Obj *p) : o(p) { if (o) o->ref++; } ORef(const ORef &r) : o(r.o) { if (o) o->ref++; }
  ORef(ORef &&r) noexcept : o(r.o) { r.o = nullptr; } ~ORef() { if (o && --o->ref == 0) delete o; }
  ORef &operator=(ORef r) { std::swap(o, r.o); return *this; } Obj *operator->() const { return o; } };
struct Mem { std::vector<ORef> v; u64 heapTop = 0x100000000000ull; 
  // sorted by base; heap addresses grow; the stack lives above the heap
  int find(u64 a) const { int lo = 0, hi = (int)v.size(); while (lo < hi) { int m = (lo + hi) / 2; if (v[m]->base <= a) lo = m + 1; else hi = m; } return lo - 1; }
};
static std::vector<ORef> RO; // constant globals, shared
static int findRO(u64 a) { int lo = 0, hi = (int)RO.size(); while (lo < hi) { int m = (lo + hi) / 2; if (RO[m]->base <= a) lo = m + 1; else hi = m; } return lo - 1; }

// ------------------------------------------------------------------ compiled code
struct Opnd { bool reg; u32 r; const V *k; u32 n; };
struct FnInfo;
struct Phi { u32 dst; Opnd src; };
struct Edge { u32 pc; std::vector<Phi> phis; };
struct CInst { unsigned opc; u32 dst = 0, nd = 0; std::vector<Opnd> ops; const Instruction *I = nullptr; u64 imm = 0, imm2 = 0; int intr = 0;
  FnInfo *callee = nullptr; std::vector<Edge> edges; std::vector<std::pair<Opnd, u64>> idx; std::vector<u32> leafW, leafOff; std::vector<int> mask; std::vector<APInt> cases; };
struct FnInfo { Function *F; std::string name; bool compiled = false; u64 addr = 0; std::vector<CInst> code; u32 nregs = 0; std::vector<u32> argReg, argN; std::vector<u64> byval; std::vector<u8> hit; };
struct Frame { FnInfo *f; u32 pc; std::vector<V> regs; std::vector<u64> allocas; };
struct Caught { u64 ptr, ti; };
struct State { std::vector<Frame> st; Mem mem; std::vector<Node *> pc; std::vector<u64> model; std::vector<std::pair<int, V>> inputs; // (name index, value)
  u64 insts = 0; std::vector<Caught> caught; u64 excPtr = 0, excTi = 0; u64 stackTop = 0x700000000000ull; u32 depth = 0; u64 frozen = 0; u32 guardDepth = 0; std::map<u64, u64> excType; std::unordered_map<Node *, V> known; std::vector<std::pair<Node *, V>> pend; };

static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout *DL;
static std::unordered_map<const Function *, FnInfo *> FN; static std::unordered_map<u64, FnInfo *> FADDR; static std::unordered_map<const GlobalVariable *, u64> GADDR;
static std::vector<std::string> inputNames; static std::vector<State *> work;
struct Viol { std::string msg, loc; std::string inputs; };
static std::vector<Viol> viols; static std::map<std::string, u64> reaches; static std::map<std::string, u64> checks; static std::vector<std::string> errors; static std::set<std::string> unknowns;
static u64 nPaths = 0, nForks = 0, nInsts = 0, nPruned = 0, nMaxInst = 0, nLimit = 0; static u64 pathLimit = 20000000; static double tEnd = 1e18; static bool stop = false; static unsigned maxViol = 1;
static std::vector<u64> params; static u8 heapFill = 0xCD; static u32 uninitN = 0; /* >0: fresh memory holds these unknown bytes, and no decision may depend on them */ static bool timedOut = false; static double memLimitMB = 3500;
static u64 totalChecks = 0, symChecks = 0;
static std::unordered_map<u64, int> tiId;

struct PathEnd {}; // thrown to end the current path
static State *cur;

static std::string locOf(State *s) {
  std::string r; int k = 0;
  for (int i = (int)s->st.size() - 1; i >= 0 && k < 4; i--, k++) { Frame &f = s->st[i]; u32 pc = f.pc; if (pc >= f.f->code.size()) continue; const Instruction *I = f.f->code[pc].I; if (!I) continue;
    if (const DILocation *l = I->getDebugLoc()) { for (; l; l = l->getInlinedAt()) { r += (r.empty() ? "" : " < ") + l->getFilename().str() + ":" + std::to_string(l->getLine()); if (r.size() > 600) return r; } }
    else r += (r.empty() ? "" : " < ") + f.f->name; }
  return r;
}
static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
static std::string inputsJson(State *s, const std::vector<u64> &m) {
  std::string o = "["; bool first = true;
  for (auto &p : s->inputs) { if (!first) o += ", "; first = false; o += "{\"name\": \"" + jesc(inputNames[p.first]) + "\", \"bits\": " + std::to_string(p.second.w) + ", \"value\": " + std::to_string(X.evalV(p.second, m)) + "}"; }
  return o + "]";
}
static void report(State *s, const std::string &msg, const std::vector<u64> &m) {
  for (auto &v : viols) if (v.msg == msg) return;
  viols.push_back({msg, locOf(s), inputsJson(s, m)});
  if (viols.size() >= maxViol) stop = true;
}
[[noreturn]] static void fail(const std::string &msg) { report(cur, msg, cur->model); throw PathEnd(); }
[[noreturn]] static void unsupported(const std::string &msg) { std::string e = msg + " @ " + locOf(cur); if (errors.size() < 20) errors.push_back(e); throw PathEnd(); }

static bool inPC(State *s, Node *n) { for (size_t i = s->pc.size(); i-- > 0;) if (s->pc[i] == n) return true; return false; }
// variables of a term (memoised)
static const std::vector<u32> &varsOf(Node *root) {
  std::vector<Node *> st{root};
  while (!st.empty()) { Node *n = st.back(); if (n->vs) { st.pop_back(); continue; } bool rdy = true;
    for (Node *k : {n->a, n->b, n->c}) if (k && !k->vs) { st.push_back(k); rdy = false; }
    if (!rdy) continue; st.pop_back();
    if (n->op == O_VAR) { n->vs = new std::vector<u32>{n->lo}; continue; }
    Node *only = nullptr; int cnt = 0; for (Node *k : {n->a, n->b, n->c}) if (k && !k->vs->empty()) { if (!only || only->vs != k->vs) cnt++; only = k; }
    if (cnt == 0) { static std::vector<u32> none; n->vs = &none; continue; }
    if (cnt == 1) { n->vs = only->vs; continue; }
    std::vector<u32> u; for (Node *k : {n->a, n->b, n->c}) if (k) u.insert(u.end(), k->vs->begin(), k->vs->end()); std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end());
    for (Node *k : {n->a, n->b, n->c}) if (k && k->vs->size() == u.size()) { n->vs = k->vs; break; }
    if (!n->vs) n->vs = new std::vector<u32>(std::move(u)); }
  return *root->vs;
}
struct VecHash { size_t operator()(const std::vector<u32> &v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; } };
static void dumpN(Node *n, int d = 0) { static const char *nm[] = {"C","V","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","cat","ext","sext","eq","ult","ule","slt","sle","ite"};
  if (n->op == O_CONST) { SmallString<40> t; n->k.toStringUnsigned(t, 16); fprintf(stderr, "#x%s", t.c_str()); return; } if (n->op == O_VAR) { fprintf(stderr, "v%u", n->lo); return; } if (d > 8) { fprintf(stderr, "..%u", n->id); return; }
  fprintf(stderr, "(%s", nm[n->op]); if (n->op == O_EXTRACT) fprintf(stderr, "[%u:%u]", n->lo + n->w - 1, n->lo); for (Node *k : {n->a, n->b, n->c}) if (k) { fprintf(stderr, " "); dumpN(k, d + 1); } fprintf(stderr, ")"); }
struct Prof { u64 n = 0, u = 0; double t = 0; }; static std::map<std::string, Prof> prof;
struct CacheEnt { int r; std::vector<std::pair<u32, u64>> m; };
static std::unordered_map<std::vector<u32>, CacheEnt, VecHash> qcache; static u64 nCacheHits = 0, cacheWords = 0;
// Is pc && cond satisfiable?  Only constraints that (transitively) share variables with cond matter, because the path's model satisfies the others.
static int feasible(State *s, const V &cond, std::vector<u64> *m) {
  if (!cond.n) { if (cond.c && m) *m = s->model; return cond.c ? 1 : 0; }
  V nc = X.Not(cond); if (nc.n && inPC(s, nc.n)) return 0;
  static std::vector<u8> mark; mark.assign(X.vars.size(), 0); std::vector<Node *> sl; static std::vector<u8> used; used.assign(s->pc.size(), 0);
  for (u32 v : varsOf(cond.n)) mark[v] = 1;
  for (bool ch = true; ch;) { ch = false; for (size_t i = s->pc.size(); i-- > 0;) if (!used[i]) { const auto &vs = varsOf(s->pc[i]); bool hit = false; for (u32 v : vs) if (mark[v]) { hit = true; break; }
      if (hit) { used[i] = 1; for (u32 v : vs) if (!mark[v]) { mark[v] = 1; ch = true; } } } }
  std::vector<u32> key; for (size_t i = 0; i < s->pc.size(); i++) if (used[i]) { sl.push_back(s->pc[i]); key.push_back(s->pc[i]->id); }
  std::sort(key.begin(), key.end()); key.push_back(cond.n->id);
  auto it = qcache.find(key); 
  if (it == qcache.end()) {
    std::vector<u64> mm; CacheEnt e; e.r = S.check(sl, cond.n, &mm);
    if (getenv("SX_PROF")) { auto &p = prof[locOf(s)]; p.n++; p.u += e.r == 0; p.t += S.lastq; }
    if (const char *dl = getenv("SX_DUMP")) { std::string l = locOf(s); if (l.find(dl) != std::string::npos) { fprintf(stderr, "--- %s res %d\n cond ", l.substr(0, 120).c_str(), e.r); dumpN(cond.n); for (Node *n : sl) { fprintf(stderr, "\n  pc "); dumpN(n); } fprintf(stderr, "\n"); } }
    if (e.r == 1) for (u32 v = 0; v < mark.size(); v++) if (mark[v]) e.m.push_back({v, mm[v]});
    if (e.r < 0) unknowns.insert("solver gave no answer @ " + locOf(s));
    cacheWords += key.size() + 4 * e.m.size(); if (cacheWords > 100000000) { qcache.clear(); cacheWords = 0; }
    it = qcache.emplace(std::move(key), std::move(e)).first;
  } else nCacheHits++;
  if (it->second.r == 1 && m) { *m = s->model; for (auto &p : it->second.m) (*m)[p.first] = p.second; }
  return it->second.r;
}
// ---- facts implied by the path condition are substituted into the state, so that later terms become constants
static void learnVal(State *s, Node *n, const V &v) { // n has the constant value v: so do the parts it determines
  s->pend.push_back({n, v});
  if (n->op == O_CONCAT) { u32 lw = n->b->w; if (n->b->op != O_CONST) learnVal(s, n->b, X.Ext(v, lw - 1, 0)); if (n->a->op != O_CONST) learnVal(s, n->a, X.Ext(v, n->w - 1, lw)); }
  else if (n->op == O_ADD && n->b->op == O_CONST) learnVal(s, n->a, X.bin(O_SUB, v, X.mkV(n->b)));
  else if (n->op == O_ADD && n->a->op == O_CONST) learnVal(s, n->b, X.bin(O_SUB, v, X.mkV(n->a)));
}
static void learn(State *s, const V &c) { // c (1 bit) holds on this path
  if (!c.n) return; Node *n = c.n;
  if (s->known.count(n)) return;
  s->pend.push_back({n, C(1, 1)});
  V in; if (X.isNot(c, in)) { if (in.n) { s->pend.push_back({in.n, C(1, 0)}); if (in.n->op == O_OR) { learn(s, X.Not(X.mkV(in.n->a))); learn(s, X.Not(X.mkV(in.n->b))); } } }
  else { V nc = X.Not(c); if (nc.n) s->pend.push_back({nc.n, C(1, 0)}); }
  if (n->op == O_AND) { learn(s, X.mkV(n->a)); learn(s, X.mkV(n->b)); }
  if (n->op == O_EQ) { if (n->b->op == O_CONST) learnVal(s, n->a, X.mkV(n->b)); else if (n->a->op == O_CONST) learnVal(s, n->b, X.mkV(n->a)); }
}
struct Subst { std::unordered_map<Node *, V> memo; u32 minId = ~0u; std::vector<u8> vm; 
  bool touches(Node *n) { if (n->id < minId) return false; for (u32 v : varsOf(n)) if (v < vm.size() && vm[v]) return true; return false; }
  V sub(Node *n) {
    if (n->op == O_CONST || !touches(n)) return X.mkV(n); auto it = memo.find(n); if (it != memo.end()) return it->second;
    V r; if (n->op == O_VAR) r = X.mkV(n); else { V a = n->a ? sub(n->a) : V{0, nullptr, 0}, b = n->b ? sub(n->b) : V{0, nullptr, 0}, c = n->c ? sub(n->c) : V{0, nullptr, 0};
      bool same = (!n->a || a.n == n->a || (!a.n && n->a->op == O_CONST)) && (!n->b || b.n == n->b || (!b.n && n->b->op == O_CONST)) && (!n->c || c.n == n->c || (!c.n && n->c->op == O_CONST));
      if (same) r = X.mkV(n); else switch (n->op) {
        case O_CONCAT: r = X.Cat(a, b); break; case O_EXTRACT: r = X.Ext(a, n->lo + n->w - 1, n->lo); break; case O_SEXT: r = X.SExt(a, n->w); break; case O_ITE: r = X.Ite(a, b, c); break;
        default: r = X.bin(n->op, a, b); } }
    memo[n] = r; return r; }
};
static u64 nSubst = 0;
static void applySubst(State *s) {
  Subst S2; bool any = false;
  for (auto &p : s->pend) { if (!s->known.emplace(p.first, p.second).second) continue; any = true; S2.memo.emplace(p.first, p.second); S2.minId = std::min(S2.minId, p.first->id); const auto &vs = varsOf(p.first); for (u32 v : vs) { if (S2.vm.size() <= v) S2.vm.resize(v + 1, 0); S2.vm[v] = 1; } }
  s->pend.clear(); if (!any) return; nSubst++;
  for (auto &f : s->st) for (auto &v : f.regs) if (v.n) { V r = S2.sub(v.n); if (r.n != v.n) v = r; }
  for (size_t i = 0; i < s->mem.v.size(); i++) { Obj *o = s->mem.v[i].o; if (o->s.empty() || !o->alive) continue;
    for (size_t k = 0; k < o->s.size(); k++) if (o->s[k] && S2.touches(o->s[k])) { V r = S2.sub(o->s[k]); if (r.n == o->s[k]) continue;
      ORef &rf = s->mem.v[i]; if (rf->ref > 1) { Obj *n = new Obj(*rf.o); n->ref = 0; rf = ORef(n); o = n; }
      if (r.n) o->s[k] = r.n; else { o->s[k] = nullptr; o->d[k] = (u8)r.c; } } }
}
static void addPC(State *s, const V &c) {
  if (!c.n) { if (!c.c) throw PathEnd(); return; }
  if (c.n->op == O_AND && c.w == 1) { addPC(s, X.mkV(c.n->a)); addPC(s, X.mkV(c.n->b)); return; }
  V in; if (X.isNot(c, in) && in.n && in.n->op == O_OR) { addPC(s, X.Not(X.mkV(in.n->a))); addPC(s, X.Not(X.mkV(in.n->b))); return; }
  if (!inPC(s, c.n)) { s->pc.push_back(c.n); learn(s, c); }
}
static V lookupKnown(State *s, const V &v, int d = 0) {
  if (!v.n || s->known.empty()) return v; auto it = s->known.find(v.n); if (it != s->known.end()) return it->second;
  Node *n = v.n; if (d > 6) return v;
  if (n->op == O_CONCAT) { V a = lookupKnown(s, X.mkV(n->a), d + (n->a->op != O_CONST)), b = lookupKnown(s, X.mkV(n->b), d); if (a.n != n->a && !(n->a->op == O_CONST) || b.n != n->b && !(n->b->op == O_CONST)) return X.Cat(a, b); return v; }
  if (n->op == O_ITE) { V a = lookupKnown(s, X.mkV(n->a), d + 1); if (!a.n) return lookupKnown(s, X.mkV(a.c ? n->b : n->c), d + 1); return v; }
  if (n->w == 1 && (n->op == O_AND || n->op == O_OR || n->op == O_XOR)) { V a = lookupKnown(s, X.mkV(n->a), d + 1), b = lookupKnown(s, X.mkV(n->b), d + 1); if ((!a.n && n->a->op != O_CONST) || (!b.n && n->b->op != O_CONST)) return X.bin(n->op, a, b); return v; }
  return v;
}
static State *forkState(State *s) { nForks++; return new State(*s); }
// Does v (feasibly) depend on memory that was never written?  The same term over other unknown bytes differs for some inputs.
static void uninitCheck(State *s, const V &v) {
  if (!uninitN || !v.n) return; const auto &vs = varsOf(v.n); if (vs.empty() || vs[0] >= uninitN) return;
  Subst R; R.minId = 0; R.vm.assign(uninitN, 1); for (u32 i : vs) if (i < uninitN) R.memo.emplace(X.vars[i], X.mkV(X.vars[uninitN + i]));
  V w = R.sub(v.n), ne = X.Not(X.bin(O_EQ, v, w)); std::vector<u64> m; if (feasible(s, ne, &m) == 1) { s->model = m; fail("memory: a decision depends on uninitialised memory"); }
}
// Make v concrete on this path; other feasible values are explored by re-executing the current instruction in a forked state.
static u64 concretize(State *s, const V &v0) {
  V v = lookupKnown(s, v0); if (!v.n) return v.c;
  u64 a = X.evalV(v, s->model); V eq = X.bin(O_EQ, v, C(v.w, a));
  std::vector<u64> m; V ne = X.Not(eq);
  if (feasible(s, ne, &m) == 1) { uninitCheck(s, v); State *o = forkState(s); addPC(o, ne); o->model = m; work.push_back(o); addPC(s, eq); }
  else learn(s, eq);
  return a;
}
// ------------------------------------------------------------------ object access
static Obj *findObj(State *s, u64 a, int *idx = nullptr) {
  int i = s->mem.find(a); if (i >= 0) { Obj *o = s->mem.v[i].o; if (a - o->base < o->size || (a == o->base)) { if (idx) *idx = i; return o; } }
  int r = findRO(a); if (r >= 0) { Obj *o = RO[r].o; if (a - o->base < o->size || a == o->base) { if (idx) *idx = -1; return o; } }
  return nullptr;
}
static Obj *writable(State *s, int idx) { ORef &r = s->mem.v[idx]; if (r->ref > 1) { Obj *n = new Obj(*r.o); n->ref = 0; r = ORef(n); } return r.o; }
static u64 allocObj(State *s, u64 size, Kind k, u32 align, u8 fill, const std::string &name = "") {
  Obj *o = new Obj; o->size = size; o->kind = k; o->align = align; o->name = name; o->d.assign(size, fill);
  if (uninitN && fill == heapFill && size && (k == K_HEAP || k == K_STACK)) { o->s.resize(size); u64 r = (k == K_HEAP ? s->mem.heapTop : s->stackTop); for (u64 i = 0; i < size; i++) o->s[i] = X.vars[(r + r / 16 * 5 + i) % uninitN]; }
  if (k == K_STACK) { u64 b = (s->stackTop + align - 1) & ~(u64)(align - 1); o->base = b; s->stackTop = b + size + 32; s->mem.v.push_back(ORef(o)); return b; }
  if (align < 16) align = 16; u64 b = (s->mem.heapTop + align - 1) & ~(u64)(align - 1); o->base = b; s->mem.heapTop = b + size + 64;
  int i = s->mem.find(b) + 1; s->mem.v.insert(s->mem.v.begin() + i, ORef(o)); return b;
}
static std::string hex(u64 a) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)a); return b; }
// while the caller's data is frozen (sx_freeze), the heap blocks from before and the library's variables must not be written
static void frozenWrite(State *s, Obj *o) { if ((o->kind == K_HEAP && o->base < s->frozen) || (o->kind == K_GLOBAL && o->name.find("4jstd") != std::string::npos)) fail(s->frozen == 1 ? "an operation writes to variables that all containers share" : "a read-only operation writes to the container's memory"); }
static Obj *access(State *s, u64 a, u64 n, bool write, int *idx) {
  Obj *o = findObj(s, a, idx);
  if (!o) fail(std::string("memory: ") + (write ? "write" : "read") + (a < 4096 ? " through null pointer" : " out of bounds"));
  if (!o->alive) fail(std::string("memory: ") + (write ? "write" : "read") + " after free");
  if (a + n > o->base + o->size) fail(std::string("memory: ") + (write ? "write" : "read") + " past the end of an object");
  if (write && o->ro) fail("memory: write to read-only data");
  if (write && s->frozen && !s->guardDepth) frozenWrite(s, o); // (a first initialisation under its guard is fine)
  return o;
}
static V loadBytes(Obj *o, u64 off, u32 w) {
  u32 nb = (w + 7) / 8;
  bool sym = false; if (!o->s.empty()) for (u32 i = 0; i < nb; i++) if (o->s[off + i]) { sym = true; break; }
  if (!sym && w <= 64) { u64 r = 0; for (u32 i = 0; i < nb; i++) r |= (u64)o->d[off + i] << (8 * i); return C(w, r); }
  V r = V{0, nullptr, 0};
  for (u32 i = 0; i < nb; i++) { V b = (!o->s.empty() && o->s[off + i]) ? V{0, o->s[off + i], 8} : C(8, o->d[off + i]); r = r.w ? X.Cat(b, r) : b; }
  return r.w == w ? r : X.Trunc(r, w);
}
static void storeBytes(Obj *o, u64 off, V v) {
  u32 nb = (v.w + 7) / 8; if (v.w % 8) v = X.ZExt(v, nb * 8);
  if (!v.n) { for (u32 i = 0; i < nb; i++) { o->d[off + i] = (u8)(v.c >> (8 * i)); if (!o->s.empty()) o->s[off + i] = nullptr; } return; }
  for (u32 i = 0; i < nb; i++) { V b = X.Ext(v, 8 * i + 7, 8 * i);
    if (!b.n) { o->d[off + i] = (u8)b.c; if (!o->s.empty()) o->s[off + i] = nullptr; }
    else { if (o->s.empty()) o->s.assign(o->size, nullptr); o->s[off + i] = b.n; } }
}
// Read a constant table at a symbolic offset (already known to be in bounds): one decision diagram per output bit.
static V muxBit(Obj *o, const V &off, u64 add, u64 nb, u32 j, int bit, u64 base, int lowz) {
  if (base + add + nb > o->size) return V{0, nullptr, 0}; // outside the table: cannot happen, any value will do
  if (bit < lowz) return C(1, o->d[base + add + j / 8] >> (j % 8) & 1);
  V b = X.Ext(off, bit, bit); if (!b.n) return muxBit(o, off, add, nb, j, bit - 1, base | (b.c << bit), lowz);
  V hi = muxBit(o, off, add, nb, j, bit - 1, base | (1ull << bit), lowz), lo = muxBit(o, off, add, nb, j, bit - 1, base, lowz);
  if (!hi.w) return lo; if (!lo.w) return hi; return X.Ite(b, hi, lo);
}
static V muxRead(Obj *o, const V &off, u64 add, u32 w, int bit, u64 base, int lowz) {
  static std::map<std::tuple<u64, Node *, u32>, V> memo; auto key = std::make_tuple(o->base + add, off.n, w); auto it = memo.find(key); if (it != memo.end()) return it->second;
  V r{0, nullptr, 0}; u64 nb = (w + 7) / 8; for (u32 j = 0; j < w; j++) { V v = muxBit(o, off, add, nb, j, bit, base, lowz); if (!v.w) v = C(1, 0); r = j ? X.Cat(v, r) : v; }
  memo.emplace(key, r); return r;
}
// The same for a mutable object: a decision tree over the symbolic offset bits, whole elements at the leaves.
static bool muxMut(Obj *o, const V &off, u32 w, u64 n, int bit, u64 base, unsigned &leaves, V &r) {
  if (base + n > o->size && bit < 0) { r = V{0, nullptr, 0}; return true; }
  if (base >= o->size) { r = V{0, nullptr, 0}; return true; }
  if (bit < 0) { if (++leaves > 96) return false; r = loadBytes(o, base, w); return true; }
  V b = X.Ext(off, bit, bit); if (!b.n) return muxMut(o, off, w, n, bit - 1, base | (b.c << bit), leaves, r);
  V hi, lo; if (!muxMut(o, off, w, n, bit - 1, base | (1ull << bit), leaves, hi) || !muxMut(o, off, w, n, bit - 1, base, leaves, lo)) return false;
  r = !hi.w ? lo : !lo.w ? hi : (hi.n == lo.n && (hi.n || hi.c == lo.c)) ? lo : X.Ite(b, hi, lo); return true;
}
// Resolve an address; constants are checked directly, symbolic ones are split into in-bounds values (forking) and out-of-bounds reports.
static u64 resolve(State *s, const V &a, u64 n, bool write, bool *mux = nullptr, Obj **mo = nullptr) {
  if (!a.n) return a.c;
  u64 v = X.evalV(a, s->model); int idx; Obj *o = access(s, v, n, write, &idx);
  bool mut = mux && !o->ro && n <= 2 && o->size <= 8192;
  if (!(mux && o->ro && o->size <= 65536) && !mut) return concretize(s, a); // every other feasible address is explored on its own path
  V off = X.bin(O_SUB, a, C(64, o->base)); V inb = X.bin(O_ULE, off, C(64, o->size - n));
  std::vector<u64> m;
  if (mut) { unsigned lv = 0; V r; int bits = 0; while ((1ull << bits) < o->size) bits++; V av = lookupKnown(s, a); if (!av.n) return av.c; if (!muxMut(o, off, 8, n, bits - 1, 0, lv, r)) { if (getenv("SX_MUX")) { fprintf(stderr, "mux failed size %llu off ", (unsigned long long)o->size); dumpN(off.n); fprintf(stderr, "\n"); } return concretize(s, a); } }
  if (feasible(s, X.Not(inb), &m) == 1) { State *f = forkState(s); addPC(f, X.Not(inb)); f->model = m; work.push_back(f); addPC(s, inb); }
  *mux = true; *mo = o; return 0;
}

// ------------------------------------------------------------------ types
static void leaves(Type *T, u64 off, std::vector<u32> &w, std::vector<u32> &o) {
  if (T->isIntegerTy()) { w.push_back(T->getIntegerBitWidth()); o.push_back(off); }
  else if (T->isPointerTy()) { w.push_back(64); o.push_back(off); }
  else if (T->isFloatTy()) { w.push_back(32); o.push_back(off); } else if (T->isDoubleTy()) { w.push_back(64); o.push_back(off); }
  else if (T->isX86_FP80Ty()) { w.push_back(80); o.push_back(off); }
  else if (auto *ST = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); i++) leaves(ST->getElementType(i), off + (u64)L->getElementOffset(i), w, o); }
  else if (auto *AT = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(AT->getElementType()); for (u64 i = 0; i < AT->getNumElements(); i++) leaves(AT->getElementType(), off + i * es, w, o); }
  else if (auto *VT = dyn_cast<FixedVectorType>(T)) { u64 es = DL->getTypeSizeInBits(VT->getElementType()); for (u64 i = 0; i < VT->getNumElements(); i++) leaves(VT->getElementType(), off + i * es / 8, w, o); }
  else if (T->isVoidTy() || T->isMetadataTy() || T->isLabelTy() || T->isTokenTy()) {}
  else { w.push_back(64); o.push_back(off); }
}
static u32 nleaf(Type *T) { std::vector<u32> w, o; leaves(T, 0, w, o); return w.size(); }
static u32 flatIndex(Type *T, ArrayRef<unsigned> ix) { u32 r = 0; for (unsigned i : ix) { for (unsigned j = 0; j < i; j++) r += nleaf(GetElementPtrInst::getTypeAtIndex(T, (u64)j)); T = GetElementPtrInst::getTypeAtIndex(T, (u64)i); } return r; }

static FnInfo *fnInfo(Function *F) { auto &p = FN[F]; if (!p) { p = new FnInfo; p->F = F; p->name = F->getName().str(); p->addr = 0x200000 + 16 * FN.size(); FADDR[p->addr] = p; } return p; }
static u64 gaddr(const GlobalValue *G);
static void constVals(const Constant *K, std::vector<V> &out) {
  Type *T = K->getType();
  if (auto *CI = dyn_cast<ConstantInt>(K)) { out.push_back(X.fromAP(CI->getValue())); return; }
  if (auto *CF = dyn_cast<ConstantFP>(K)) { out.push_back(X.fromAP(CF->getValueAPF().bitcastToAPInt())); return; }
  if (isa<ConstantPointerNull>(K)) { out.push_back(C(64, 0)); return; }
  if (isa<UndefValue>(K) || isa<ConstantAggregateZero>(K)) { std::vector<u32> w, o; leaves(T, 0, w, o); for (u32 x : w) out.push_back(X.fromAP(APInt(x, 0))); return; }
  if (auto *GV = dyn_cast<GlobalValue>(K)) { out.push_back(C(64, gaddr(GV))); return; }
  if (auto *CD = dyn_cast<ConstantDataSequential>(K)) { for (unsigned i = 0; i < CD->getNumElements(); i++) constVals(CD->getElementAsConstant(i), out); return; }
  if (isa<ConstantAggregate>(K)) { for (unsigned i = 0; i < K->getNumOperands(); i++) constVals(cast<Constant>(K->getOperand(i)), out); return; }
  if (auto *CE = dyn_cast<ConstantExpr>(K)) {
    switch (CE->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); auto *G = cast<GEPOperator>(CE); if (!G->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "symx: gep constexpr\n"); _exit(4); }
        std::vector<V> b; constVals(cast<Constant>(G->getPointerOperand()), b); out.push_back(C(64, b[0].c + off.getSExtValue())); return; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: { std::vector<V> b; constVals(CE->getOperand(0), b);
        if (b.size() == 1) { std::vector<u32> w, o; leaves(T, 0, w, o); if (w[0] < b[0].w) b[0] = X.Trunc(b[0], w[0]); } for (auto &x : b) out.push_back(x); return; }
      case Instruction::Trunc: { std::vector<V> b; constVals(CE->getOperand(0), b); out.push_back(X.Trunc(b[0], T->getIntegerBitWidth())); return; }
      case Instruction::Add: case Instruction::Sub: case Instruction::Xor: case Instruction::Mul: { std::vector<V> a, b; constVals(CE->getOperand(0), a); constVals(CE->getOperand(1), b);
        Op op = CE->getOpcode() == Instruction::Add ? O_ADD : CE->getOpcode() == Instruction::Sub ? O_SUB : CE->getOpcode() == Instruction::Mul ? O_MUL : O_XOR; out.push_back(X.bin(op, a[0], b[0])); return; }
      case Instruction::ICmp: { std::vector<V> a, b; constVals(CE->getOperand(0), a); constVals(CE->getOperand(1), b); V e = X.bin(O_EQ, a[0], b[0]);
        if (CE->getPredicate() == CmpInst::ICMP_EQ) { out.push_back(e); return; } if (CE->getPredicate() == CmpInst::ICMP_NE) { out.push_back(X.Not(e)); return; } }
      default: break;
    }
  }
  std::string t; raw_string_ostream os(t); K->print(os); fprintf(stderr, "symx: unsupported constant %s\n", os.str().c_str()); _exit(4);
}
static Mem initMem; static u64 gTop = 0x10000000ull;
static void writeConst(const Constant *K, Obj *o) { std::vector<u32> w, of; leaves(K->getType(), 0, w, of); std::vector<V> v; constVals(K, v); for (size_t i = 0; i < v.size(); i++) storeBytes(o, of[i], v[i]); }
static std::vector<std::pair<const GlobalVariable *, Obj *>> pendingInit;
static u64 gaddr(const GlobalValue *G) {
  if (auto *A = dyn_cast<GlobalAlias>(G)) { std::vector<V> b; constVals(A->getAliasee(), b); return b[0].c; }
  if (auto *F = dyn_cast<Function>(G)) return fnInfo(const_cast<Function *>(F))->addr;
  auto *GV = cast<GlobalVariable>(G); auto it = GADDR.find(GV); if (it != GADDR.end()) return it->second;
  Type *T = GV->getValueType(); u64 sz = T->isSized() ? (u64)DL->getTypeAllocSize(T) : 0; if (!GV->hasInitializer() && sz < 512) sz = 512; 
  u64 al = std::max<u64>(16, GV->getAlign() ? GV->getAlign()->value() : 16); u64 b = (gTop + al - 1) & ~(al - 1); gTop = b + sz + 32; GADDR[GV] = b;
  Obj *o = new Obj; o->base = b; o->size = sz; o->kind = K_GLOBAL; o->name = GV->getName().str(); o->ro = GV->isConstant(); o->d.assign(sz, 0);
  if (o->ro) RO.push_back(ORef(o)); else initMem.v.push_back(ORef(o));
  if (GV->hasInitializer()) pendingInit.push_back({GV, o});
  return b;
}
// ------------------------------------------------------------------ compile a function
enum { I_NONE, I_NOP, I_SYM, I_ASSUME, I_CHECK, I_CONC, I_REACH, I_PARAM, I_MALLOC, I_CALLOC, I_FREE, I_REALLOC, I_ALIGNED, I_PMEMALIGN, I_OBJSIZE, I_MEMCPY, I_MEMMOVE, I_MEMSET, I_MEMCMP, I_BCMP, I_STRLEN, I_MEMCHR,
  I_ABORT, I_EXIT, I_CXA_ALLOC, I_CXA_FREE, I_CXA_THROW, I_BEGIN_CATCH, I_END_CATCH, I_RETHROW, I_GUARD_ACQ, I_GUARD_REL, I_GUARD_ABORT, I_TERMINATE, I_EXTRA_RET0, I_ISSYM, I_LLVM, I_RET_ARG0, I_EXC_CTOR, I_FREEZE };
static std::unordered_map<std::string, int> EXT = {
  {"sx_sym", I_SYM}, {"sx_assume", I_ASSUME}, {"sx_check", I_CHECK}, {"sx_concretize", I_CONC}, {"sx_reach", I_REACH}, {"sx_param", I_PARAM}, {"sx_objsize", I_OBJSIZE}, {"sx_is_symbolic", I_ISSYM}, {"sx_freeze", I_FREEZE},
  {"malloc", I_MALLOC}, {"calloc", I_CALLOC}, {"free", I_FREE}, {"realloc", I_REALLOC}, {"aligned_alloc", I_ALIGNED}, {"posix_memalign", I_PMEMALIGN},
  {"memcpy", I_MEMCPY}, {"memmove", I_MEMMOVE}, {"memset", I_MEMSET}, {"memcmp", I_MEMCMP}, {"bcmp", I_BCMP}, {"strlen", I_STRLEN},
  {"abort", I_ABORT}, {"__assert_fail", I_ABORT}, {"exit", I_EXIT}, {"_exit", I_EXIT}, {"_ZSt9terminatev", I_TERMINATE}, {"__cxa_pure_virtual", I_ABORT},
  {"__cxa_allocate_exception", I_CXA_ALLOC}, {"__cxa_free_exception", I_CXA_FREE}, {"__cxa_throw", I_CXA_THROW}, {"__cxa_begin_catch", I_BEGIN_CATCH}, {"__cxa_end_catch", I_END_CATCH}, {"__cxa_rethrow", I_RETHROW},
  {"__cxa_guard_acquire", I_GUARD_ACQ}, {"__cxa_guard_release", I_GUARD_REL}, {"__cxa_guard_abort", I_GUARD_ABORT}, {"__cxa_atexit", I_EXTRA_RET0}, {"atexit", I_EXTRA_RET0},
  {"_ZNSt8ios_base4InitC1Ev", I_NOP}, {"_ZNSt8ios_base4InitD1Ev", I_NOP}, {"printf", I_EXTRA_RET0}, {"puts", I_EXTRA_RET0}, {"putchar", I_EXTRA_RET0}, {"fprintf", I_EXTRA_RET0}, {"fwrite", I_EXTRA_RET0}, {"fflush", I_EXTRA_RET0}, {"fputs", I_EXTRA_RET0}, {"fputc", I_EXTRA_RET0} };
static void cfn(FnInfo *f);
static Opnd opnd(FnInfo *f, std::unordered_map<const Value *, u32> &R, Value *v) {
  u32 n = nleaf(v->getType()); auto it = R.find(v); if (it != R.end()) return Opnd{true, it->second, nullptr, n};
  if (auto *K = dyn_cast<Constant>(v)) { static std::unordered_map<const Constant *, std::vector<V> *> cache; auto &c = cache[K]; if (!c) { c = new std::vector<V>; constVals(K, *c); } return Opnd{false, 0, c->data(), n}; }
  return Opnd{false, 0, nullptr, 0};
}
static void cfn(FnInfo *f) {
  if (f->compiled) return; f->compiled = true; Function &F = *f->F; std::unordered_map<const Value *, u32> R; u32 nr = 0;
  for (auto &A : F.args()) { u32 n = nleaf(A.getType()); R[&A] = nr; f->argReg.push_back(nr); f->argN.push_back(n); nr += n; f->byval.push_back(A.hasByValAttr() ? (u64)DL->getTypeAllocSize(A.getParamByValType()) : 0); }
  std::unordered_map<const BasicBlock *, u32> start; u32 pc = 0;
  for (auto &B : F) { start[&B] = pc; for (auto &I : B) { u32 n = nleaf(I.getType()); if (n) { R[&I] = nr; nr += n; } if (isa<PHINode>(I) || I.isDebugOrPseudoInst()) continue; pc++; } }
  f->nregs = nr; f->code.resize(pc); f->hit.assign(pc, 0); pc = 0;
  auto edge = [&](const BasicBlock *from, const BasicBlock *to) { Edge e; e.pc = start[to]; for (auto &P : to->phis()) { Value *v = P.getIncomingValueForBlock(from); e.phis.push_back({R[&P], opnd(f, R, v)}); } return e; };
  for (auto &B : F) for (auto &I : B) {
    if (isa<PHINode>(I) || I.isDebugOrPseudoInst()) continue;
    CInst &c = f->code[pc++]; c.I = &I; c.opc = I.getOpcode(); c.nd = nleaf(I.getType()); if (c.nd) c.dst = R[&I];
    if (auto *CB = dyn_cast<CallBase>(&I)) {
      for (auto &a : CB->args()) c.ops.push_back(opnd(f, R, a.get()));
      if (auto *II = dyn_cast<InvokeInst>(&I)) { c.edges.push_back(edge(&B, II->getNormalDest())); c.edges.push_back(edge(&B, II->getUnwindDest())); }
      Value *cv = CB->getCalledOperand()->stripPointerCasts(); if (auto *GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliaseeObject();
      if (auto *CF = dyn_cast<Function>(cv)) {
        if (CF->isIntrinsic()) { c.intr = I_LLVM; c.imm = CF->getIntrinsicID(); }
        else c.callee = fnInfo(CF);
      } else if (isa<InlineAsm>(cv)) { c.intr = -2; }
      else c.ops.push_back(opnd(f, R, CB->getCalledOperand())), c.intr = -1;
      continue;
    }
    for (auto &o : I.operands()) { if (isa<BasicBlock>(o.get())) continue; c.ops.push_back(opnd(f, R, o.get())); }
    switch (I.getOpcode()) {
      case Instruction::Br: for (unsigned i = 0; i < I.getNumSuccessors(); i++) c.edges.push_back(edge(&B, I.getSuccessor(i))); break;
      case Instruction::Switch: { auto *SI = cast<SwitchInst>(&I); c.edges.push_back(edge(&B, SI->getDefaultDest())); for (auto &cs : SI->cases()) { c.cases.push_back(cs.getCaseValue()->getValue()); c.edges.push_back(edge(&B, cs.getCaseSuccessor())); } break; }
      case Instruction::Load: leaves(I.getType(), 0, c.leafW, c.leafOff); c.imm = DL->getTypeStoreSize(I.getType()); break;
      case Instruction::Store: leaves(I.getOperand(0)->getType(), 0, c.leafW, c.leafOff); c.imm = DL->getTypeStoreSize(I.getOperand(0)->getType()); break;
      case Instruction::Alloca: { auto *A = cast<AllocaInst>(&I); c.imm = DL->getTypeAllocSize(A->getAllocatedType()); c.imm2 = A->getAlign().value(); break; }
      case Instruction::GetElementPtr: { auto *G = cast<GetElementPtrInst>(&I); i64 off = 0;
        for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) { Value *ix = gi.getOperand();
          if (StructType *ST = gi.getStructTypeOrNull()) { off += (i64)(u64)DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); }
          else { u64 es = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *CI = dyn_cast<ConstantInt>(ix)) off += CI->getSExtValue() * (i64)es; else c.idx.push_back({opnd(f, R, ix), es}); } }
        c.imm = (u64)off; break; }
      case Instruction::ExtractValue: { auto *E = cast<ExtractValueInst>(&I); c.imm = flatIndex(E->getAggregateOperand()->getType(), E->getIndices()); break; }
      case Instruction::InsertValue: { auto *E = cast<InsertValueInst>(&I); c.imm = flatIndex(E->getType(), E->getIndices()); break; }
      case Instruction::ShuffleVector: { auto *SV = cast<ShuffleVectorInst>(&I); for (int m : SV->getShuffleMask()) c.mask.push_back(m); break; }
      default: if (I.getType()->isIntOrIntVectorTy() || I.getType()->isFPOrFPVectorTy() || I.getType()->isPtrOrPtrVectorTy()) { leaves(I.getType(), 0, c.leafW, c.leafOff); } break;
    }
    if (c.leafW.empty()) leaves(I.getType(), 0, c.leafW, c.leafOff);
  }
}
static inline const V *val(Frame &f, const Opnd &o) { return o.reg ? &f.regs[o.r] : o.k; }
static void takeEdge(Frame &f, const Edge &e) {
  if (!e.phis.empty()) { static std::vector<V> tmp; tmp.clear(); for (auto &p : e.phis) { const V *s = val(f, p.src); for (u32 i = 0; i < p.src.n; i++) tmp.push_back(s[i]); }
    size_t k = 0; for (auto &p : e.phis) for (u32 i = 0; i < p.src.n; i++) f.regs[p.dst + i] = tmp[k++]; }
  f.pc = e.pc;
}
static void popFrame(State *s) { Frame &f = s->st.back(); 
  for (u64 a : f.allocas) { int i = s->mem.find(a); if (i >= 0 && s->mem.v[i]->base == a) { s->mem.v.erase(s->mem.v.begin() + i); } }
  if (!f.allocas.empty()) s->stackTop = f.allocas[0];
  s->st.pop_back(); }
static void pushFrame(State *s, FnInfo *fi, const std::vector<V> &args) {
  cfn(fi); if (s->st.size() > 400) fail("stack overflow (unbounded recursion)");
  s->st.emplace_back(); Frame &f = s->st.back(); f.f = fi; f.pc = 0; f.regs.assign(fi->nregs, V{0, nullptr, 64});
  size_t k = 0; for (size_t i = 0; i < fi->argReg.size(); i++) for (u32 j = 0; j < fi->argN[i]; j++) { if (k >= args.size()) unsupported("call argument mismatch"); f.regs[fi->argReg[i] + j] = args[k++]; }
  for (size_t i = 0; i < fi->byval.size(); i++) if (fi->byval[i]) {
    u64 n = fi->byval[i], src = f.regs[fi->argReg[i]].c; u64 dst = allocObj(s, n, K_STACK, 16, 0); s->st.back().allocas.push_back(dst);
    int si, di; Obj *so = access(s, src, n, false, &si); std::vector<V> b; for (u64 j = 0; j < n; j++) b.push_back(loadBytes(so, src - so->base + j, 8)); Obj *d = access(s, dst, n, true, &di); d = writable(s, di); for (u64 j = 0; j < n; j++) storeBytes(d, j, b[j]);
    s->st.back().regs[fi->argReg[i]] = C(64, dst); }
}
static void ret(State *s, const V *v, u32 n) {
  std::vector<V> r(v, v + n); popFrame(s); if (s->st.empty()) return;
  Frame &f = s->st.back(); CInst &c = f.f->code[f.pc]; for (u32 i = 0; i < c.nd && i < n; i++) f.regs[c.dst + i] = r[i];
  if (c.opc == Instruction::Invoke) takeEdge(f, c.edges[0]); else f.pc++;
}
// ------------------------------------------------------------------ exceptions
static std::string demTi(u64 ti) { for (auto &p : GADDR) if (p.second == ti) return p.first->getName().str(); return "?"; }
static const std::map<std::string, std::string> STDBASE = { {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"} };
static bool tiMatch(u64 thrown, u64 want) {
  if (want == 0 || thrown == want) return true;
  const GlobalVariable *T = nullptr; for (auto &p : GADDR) if (p.second == thrown) T = p.first; if (!T) return false;
  std::string nm = T->getName().str(), wn = demTi(want); auto it = STDBASE.find(nm);
  while (it != STDBASE.end()) { if (it->second == wn) return true; it = STDBASE.find(it->second); }
  if (T->hasInitializer()) if (auto *CS = dyn_cast<ConstantStruct>(T->getInitializer())) if (CS->getNumOperands() == 3) { std::vector<V> b; constVals(CS->getOperand(2), b); if (b.size() == 1) return tiMatch(b[0].c, want); }
  return false;
}
// unwinding: the top frame's current instruction is the raising call (phase: continue from callers when `fromCaller`)
static void unwind(State *s, u64 exc, u64 ti) {
  // phase 1: is there a handler?
  auto clause = [&](Frame &f, int &sel, bool &cleanup) -> bool {
    CInst &c = f.f->code[f.pc]; if (c.opc != Instruction::Invoke) return false;
    auto *LP = cast<InvokeInst>(c.I)->getLandingPadInst(); cleanup = LP->isCleanup(); sel = 0;
    for (unsigned i = 0; i < LP->getNumClauses(); i++) { if (!LP->isCatch(i)) { continue; } std::vector<V> b; constVals(LP->getClause(i), b); u64 w = b[0].c;
      if (tiMatch(ti, w)) { auto r = tiId.emplace(w, (int)tiId.size() + 1); sel = r.first->second; return true; } }
    return cleanup; };
  bool handled = false; for (int i = (int)s->st.size() - 1; i >= 0 && !handled; i--) { int sel; bool cl = false; if (clause(s->st[i], sel, cl) && sel) handled = true; }
  if (!handled) fail("uncaught exception " + demTi(ti));
  while (!s->st.empty()) { Frame &f = s->st.back(); int sel = 0; bool cl = false;
    if (clause(f, sel, cl)) { CInst &c = f.f->code[f.pc]; s->excPtr = exc; s->excTi = ti; takeEdge(f, c.edges[1]);
      CInst &lp = f.f->code[f.pc]; if (lp.opc != Instruction::LandingPad) unsupported("landingpad not first"); f.regs[lp.dst] = C(64, exc); f.regs[lp.dst + 1] = C(32, sel); f.pc++; return; }
    popFrame(s); }
}
// ------------------------------------------------------------------ helpers
static std::string cstr(State *s, const V &p) { if (p.n) return "?"; std::string r; u64 a = p.c; for (int i = 0; i < 300; i++) { int idx; Obj *o = findObj(s, a + i, &idx); if (!o || a + i - o->base >= o->size) break; u8 ch = o->d[a + i - o->base]; if (!ch) break; r += (char)ch; } return r; }
static void copyMem(State *s, u64 d, u64 a, u64 n) {
  if (!n) return; int si, di; Obj *so = access(s, a, n, false, &si); Obj *dob = access(s, d, n, true, &di); u64 so_off = a - so->base, d_off = d - dob->base;
  std::vector<u8> tb(so->d.begin() + so_off, so->d.begin() + so_off + n); std::vector<Node *> tn; if (!so->s.empty()) tn.assign(so->s.begin() + so_off, so->s.begin() + so_off + n);
  dob = writable(s, di); std::copy(tb.begin(), tb.end(), dob->d.begin() + d_off);
  if (!tn.empty()) { if (dob->s.empty()) dob->s.assign(dob->size, nullptr); std::copy(tn.begin(), tn.end(), dob->s.begin() + d_off); } else if (!dob->s.empty()) std::fill(dob->s.begin() + d_off, dob->s.begin() + d_off + n, nullptr);
}
static V byteAt(State *s, u64 a) { int i; Obj *o = access(s, a, 1, false, &i); return loadBytes(o, a - o->base, 8); }
static V memcmpV(State *s, u64 a, u64 b, u64 n, bool eqOnly) {
  if (n) { int i; access(s, a, n, false, &i); access(s, b, n, false, &i); }
  if (eqOnly) { V r = C(1, 1); for (u64 i = 0; i < n; i++) r = X.bin(O_AND, r, X.bin(O_EQ, byteAt(s, a + i), byteAt(s, b + i))); return X.ZExt(X.Not(r), 32); }
  V r = C(32, 0); for (u64 i = n; i-- > 0;) { V x = byteAt(s, a + i), y = byteAt(s, b + i); if (!x.n && !y.n) { if (x.c != y.c) r = C(32, x.c < y.c ? -1 : 1); continue; }
    r = X.Ite(X.bin(O_EQ, x, y), r, X.Ite(X.bin(O_ULT, x, y), C(32, -1), C(32, 1))); }
  return r;
}
static V ctpop(const V &a) { V r = C(a.w, 0); if (!a.n) return C(a.w, __builtin_popcountll(a.c)); for (u32 i = 0; i < a.w; i++) r = X.bin(O_ADD, r, X.ZExt(X.Ext(a, i, i), a.w)); return r; }
static V cttz(const V &a) { if (!a.n) return C(a.w, a.c ? __builtin_ctzll(a.c) : a.w); V r = X.fromAP(APInt(a.w, a.w)); for (u32 i = a.w; i-- > 0;) r = X.Ite(X.Ext(a, i, i), X.fromAP(APInt(a.w, i)), r); return r; }
static V ctlz(const V &a) { V r = X.fromAP(APInt(a.w, a.w)); for (u32 i = 0; i < a.w; i++) r = X.Ite(X.Ext(a, i, i), X.fromAP(APInt(a.w, a.w - 1 - i)), r); return r; }
static V crc32c(V crc, V data) { // crc 32 bits, data w bits (LSB first)
  if (!crc.n && !data.n) { u32 c = crc.c; u64 d = data.c; for (u32 i = 0; i < data.w; i++) { u32 bit = (c ^ (u32)(d >> i)) & 1; c = (c >> 1) ^ (bit ? 0x82F63B78u : 0); } return C(32, c); }
  // byte-wise: xor in the byte, 8 reduction steps, as bit vectors
  V c = crc; for (u32 b = 0; b < data.w; b += 8) { c = X.bin(O_XOR, c, X.ZExt(X.Ext(data, b + 7, b), 32));
    for (int k = 0; k < 8; k++) { V bit = X.Ext(c, 0, 0); V sh = X.bin(O_LSHR, c, C(32, 1)); c = X.bin(O_XOR, sh, X.bin(O_AND, X.SExt(bit, 32), C(32, 0x82F63B78u))); } }
  return c;
}
// floating-point comparison on the bit patterns (32/64-bit IEEE)
static V fcmpV(CmpInst::Predicate p, V x, V y) {
  u32 w = x.w; if (w != 32 && w != 64) unsupported("floating-point comparison of this width"); u32 mb = w == 32 ? 23 : 52; u64 inf = maskw(w - 1 - mb) << mb;
  auto mag = [&](V v) { return X.ZExt(X.Ext(v, w - 2, 0), w); }; auto sgn = [&](V v) { return X.Ext(v, w - 1, w - 1); };
  V mx = mag(x), my = mag(y), z = C(w, 0), un = X.bin(O_OR, X.bin(O_ULT, C(w, inf), mx), X.bin(O_ULT, C(w, inf), my)), bz = X.bin(O_AND, X.bin(O_EQ, mx, z), X.bin(O_EQ, my, z));
  V eq = X.bin(O_OR, X.bin(O_EQ, x, y), bz); auto lt = [&](V a, V b) { V sa = sgn(a), sb = sgn(b); V r = X.Ite(sa, X.Ite(sb, X.bin(O_ULT, b, a), C(1, 1)), X.Ite(sb, C(1, 0), X.bin(O_ULT, a, b))); return X.bin(O_AND, r, X.Not(bz)); };
  V o = X.Not(un); auto A = [&](V a, V b) { return X.bin(O_AND, a, b); }; auto O = [&](V a, V b) { return X.bin(O_OR, a, b); };
  switch (p) {
    case CmpInst::FCMP_OEQ: return A(o, eq); case CmpInst::FCMP_UEQ: return O(un, eq); case CmpInst::FCMP_ONE: return A(o, X.Not(eq)); case CmpInst::FCMP_UNE: return O(un, X.Not(eq));
    case CmpInst::FCMP_OLT: return A(o, lt(x, y)); case CmpInst::FCMP_ULT: return O(un, lt(x, y)); case CmpInst::FCMP_OGT: return A(o, lt(y, x)); case CmpInst::FCMP_UGT: return O(un, lt(y, x));
    case CmpInst::FCMP_OLE: return A(o, O(eq, lt(x, y))); case CmpInst::FCMP_ULE: return O(un, O(eq, lt(x, y))); case CmpInst::FCMP_OGE: return A(o, O(eq, lt(y, x))); case CmpInst::FCMP_UGE: return O(un, O(eq, lt(y, x)));
    case CmpInst::FCMP_ORD: return o; case CmpInst::FCMP_UNO: return un; case CmpInst::FCMP_TRUE: return C(1, 1); default: return C(1, 0);
  }
}
static V catAll(const V *v, u32 n) { V r = v[0]; for (u32 i = 1; i < n; i++) r = X.Cat(v[i], r); return r; }
static V fpop(unsigned opc, V a, V b, u32 w) {
  if (w == 64) { double x, y, r; memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8); switch (opc) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); } u64 o; memcpy(&o, &r, 8); return C(64, o); }
  float x, y, r; u32 ai = a.c, bi = b.c; memcpy(&x, &ai, 4); memcpy(&y, &bi, 4); switch (opc) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmodf(x, y); } u32 o; memcpy(&o, &r, 4); return C(32, o);
}
static double asD(V a) { if (a.w == 64) { double x; memcpy(&x, &a.c, 8); return x; } float x; u32 i = a.c; memcpy(&x, &i, 4); return x; }
static V fromD(double d, u32 w) { if (w == 64) { u64 o; memcpy(&o, &d, 8); return C(64, o); } float f = (float)d; u32 o; memcpy(&o, &f, 4); return C(32, o); }

static void doCheck(State *s, V cond, const std::string &msg) {
  totalChecks++; checks[msg]++; if (cond.w > 1) cond = X.Not(X.bin(O_EQ, cond, C(cond.w, 0)));
  if (!cond.n) { if (!cond.c) fail(msg); return; }
  symChecks++;
  if (X.evalV(cond, s->model) == 0) fail(msg);
  std::vector<u64> m; V nc = X.Not(cond); if (feasible(s, nc, &m) == 1) { report(s, msg, m); if (stop) throw PathEnd(); }
  addPC(s, cond);
}
// returns true if the call completed (advance), false if control was transferred
static bool external(State *s, Frame &f, CInst &c, int id, const std::string &name, std::vector<V> &a) {
  auto setr = [&](V v) { if (c.nd) f.regs[c.dst] = v; };
  switch (id) {
    case I_NOP: return true;
    case I_RET_ARG0: setr(a[0]); return true;
    case I_EXTRA_RET0: { for (u32 i = 0; i < c.nd; i++) { std::vector<u32> w, o; leaves(c.I->getType(), 0, w, o); f.regs[c.dst + i] = X.fromAP(APInt(w[i], 0)); } return true; }
    case I_SYM: { std::string nm = cstr(s, a[0]); u32 w = a[1].c; static std::map<std::string, std::vector<V>> pool; // reuse variables across paths by (name, occurrence)
      int occ = 0; int ni = -1; for (size_t i = 0; i < inputNames.size(); i++) if (inputNames[i] == nm) ni = i; if (ni < 0) { ni = inputNames.size(); inputNames.push_back(nm); }
      for (auto &p : s->inputs) if (p.first == ni) occ++;
      auto &pl = pool[nm + "/" + std::to_string(w)]; while ((int)pl.size() <= occ) pl.push_back(X.var(nm, w)); V v = pl[occ];
      if (s->model.size() < X.vars.size()) s->model.resize(X.vars.size(), 0); s->inputs.push_back({ni, v}); setr(X.ZExt(v, 64)); return true; }
    case I_ASSUME: { V cnd = a[0]; if (cnd.w > 1) cnd = X.Not(X.bin(O_EQ, cnd, C(cnd.w, 0))); if (!cnd.n) { if (!cnd.c) { nPruned++; throw PathEnd(); } return true; }
      if (X.evalV(cnd, s->model) == 0) { std::vector<u64> m; if (feasible(s, cnd, &m) != 1) { nPruned++; throw PathEnd(); } s->model = m; } addPC(s, cnd); return true; }
    case I_CHECK: doCheck(s, a[0], cstr(s, a[1])); return true;
    case I_CONC: setr(C(64, concretize(s, a[0]))); return true;
    case I_REACH: reaches[cstr(s, a[0])]++; return true;
    case I_PARAM: setr(C(64, a[0].c < params.size() ? params[a[0].c] : 0)); return true;
    case I_ISSYM: setr(C(32, a[0].n != nullptr)); return true;
    case I_FREEZE: { u64 how = concretize(s, a[0]); s->frozen = how == 2 ? 1 : how ? s->mem.heapTop : 0; return true; }
    case I_OBJSIZE: { u64 p = concretize(s, a[0]); Obj *o = findObj(s, p); setr(C(64, (o && o->base == p && o->kind == K_HEAP && o->alive) ? o->size : ~0ull)); return true; }
    case I_MALLOC: { u64 n = concretize(s, a[0]); if (n > (1ull << 24)) { setr(C(64, 0)); return true; } setr(C(64, allocObj(s, n, K_HEAP, 16, heapFill))); return true; }
    case I_CALLOC: { u64 n = concretize(s, a[0]), k = concretize(s, a[1]); if (n * k > (1ull << 24)) { setr(C(64, 0)); return true; } setr(C(64, allocObj(s, n * k, K_HEAP, 16, 0))); return true; }
    case I_ALIGNED: { u64 al = concretize(s, a[0]), n = concretize(s, a[1]); if (n > (1ull << 24)) { setr(C(64, 0)); return true; } setr(C(64, allocObj(s, n, K_HEAP, al, heapFill))); return true; }
    case I_PMEMALIGN: { u64 al = concretize(s, a[1]), n = concretize(s, a[2]); u64 b = allocObj(s, n, K_HEAP, al, heapFill); int i; Obj *o = access(s, a[0].c, 8, true, &i); o = writable(s, i); storeBytes(o, a[0].c - o->base, C(64, b)); setr(C(32, 0)); return true; }
    case I_FREE: { u64 p = concretize(s, a[0]); if (!p) return true; int i; Obj *o = findObj(s, p, &i); if (!o || o->base != p || o->kind != K_HEAP) fail("memory: free of a pointer that was not allocated"); if (!o->alive) fail("memory: double free"); if (s->frozen) frozenWrite(s, o);
      o = writable(s, i); o->alive = false; o->d.clear(); o->d.shrink_to_fit(); o->s.clear(); o->s.shrink_to_fit(); return true; }
    case I_REALLOC: { u64 p = concretize(s, a[0]), n = concretize(s, a[1]); u64 b = allocObj(s, n, K_HEAP, 16, heapFill); if (p) { int i; Obj *o = findObj(s, p, &i); if (!o || !o->alive) fail("memory: realloc of a dead pointer"); copyMem(s, b, p, std::min(n, o->size)); findObj(s, p, &i); o = writable(s, i); o->alive = false; o->d.clear(); o->s.clear(); } setr(C(64, b)); return true; }
    case I_MEMCPY: case I_MEMMOVE: { u64 n = concretize(s, a[2]); u64 d = n ? resolve(s, a[0], n, true) : 0, sr = n ? resolve(s, a[1], n, false) : 0; 
      if (n && id == I_MEMCPY && d != sr && d < sr + n && sr < d + n) fail("memory: memcpy with overlapping ranges");
      copyMem(s, d, sr, n); setr(a[0]); return true; }
    case I_MEMSET: { u64 n = concretize(s, a[2]); if (n) { u64 d = resolve(s, a[0], n, true); int i; Obj *o = access(s, d, n, true, &i); o = writable(s, i); V b = a[1].w == 8 ? a[1] : X.Trunc(a[1], 8); for (u64 k = 0; k < n; k++) storeBytes(o, d - o->base + k, b); } setr(a[0]); return true; }
    case I_MEMCMP: case I_BCMP: { u64 n = concretize(s, a[2]); u64 p = n ? resolve(s, a[0], n, false) : 0, q = n ? resolve(s, a[1], n, false) : 0; setr(memcmpV(s, p, q, n, id == I_BCMP)); return true; }
    case I_STRLEN: { u64 p = concretize(s, a[0]); u64 n = 0; for (;; n++) { V b = byteAt(s, p + n); if (!b.n) { if (!b.c) break; continue; }
        V z = X.bin(O_EQ, b, C(8, 0)); bool mv = X.evalV(z, s->model); std::vector<u64> m; if (feasible(s, X.bin(O_EQ, z, C(1, !mv)), &m) == 1) { State *o = forkState(s); addPC(o, X.bin(O_EQ, z, C(1, !mv))); o->model = m; work.push_back(o); }
        addPC(s, X.bin(O_EQ, z, C(1, mv))); if (mv) break; } setr(C(64, n)); return true; }
    case I_ABORT: fail("abort: " + name);
    case I_TERMINATE: fail("std::terminate");
    case I_EXIT: throw PathEnd();
    case I_CXA_ALLOC: setr(C(64, allocObj(s, a[0].c, K_EXC, 16, 0))); return true;
    case I_CXA_FREE: return true;
    case I_CXA_THROW: s->excType[a[0].c] = a[1].c; unwind(s, a[0].c, a[1].c); return false;
    case I_BEGIN_CATCH: { u64 ti = s->excType.count(a[0].c) ? s->excType[a[0].c] : 0; s->caught.push_back({a[0].c, ti}); setr(a[0]); return true; }
    case I_END_CATCH: if (!s->caught.empty()) s->caught.pop_back(); return true;
    case I_RETHROW: { if (s->caught.empty()) fail("rethrow without exception"); Caught k = s->caught.back(); unwind(s, k.ptr, k.ti); return false; }
    case I_GUARD_ACQ: { V b = byteAt(s, a[0].c); setr(C(32, b.c ? 0 : 1)); if (!b.c) s->guardDepth++; return true; }
    case I_GUARD_ABORT: { if (s->guardDepth) s->guardDepth--; return true; }
    case I_GUARD_REL: { int i; Obj *o = access(s, a[0].c, 1, true, &i); o = writable(s, i); storeBytes(o, a[0].c - o->base, C(8, 1)); if (s->guardDepth) s->guardDepth--; return true; }
    default: unsupported("external " + name);
  }
}
static bool intrinsic(State *s, Frame &f, CInst &c, std::vector<V> &a) {
  u32 n = c.nd; V *d = n ? &f.regs[c.dst] : nullptr; auto bin2 = [&](auto fn) { for (u32 i = 0; i < n; i++) d[i] = fn(a[i], a[n + i]); return true; };
  switch (c.imm) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::x86_sse_sfence: case Intrinsic::x86_sse2_lfence: case Intrinsic::x86_sse2_mfence: case Intrinsic::x86_sse2_pause: return true;
    case Intrinsic::invariant_start: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: d[0] = a[0]; return true;
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: case Intrinsic::memset: { int id = c.imm == Intrinsic::memset ? I_MEMSET : I_MEMMOVE; return external(s, f, c, id, "mem", a); }
    case Intrinsic::expect: d[0] = a[0]; return true;
    case Intrinsic::is_constant: d[0] = C(1, 0); return true;
    case Intrinsic::objectsize: d[0] = C(d[0].w ? c.leafW.empty() ? 64 : 64 : 64, -1); return true;
    case Intrinsic::trap: case Intrinsic::debugtrap: fail("trap"); 
    case Intrinsic::umax: return bin2([](V x, V y) { return X.Ite(X.bin(O_ULT, x, y), y, x); });
    case Intrinsic::umin: return bin2([](V x, V y) { return X.Ite(X.bin(O_ULT, x, y), x, y); });
    case Intrinsic::smax: return bin2([](V x, V y) { return X.Ite(X.bin(O_SLT, x, y), y, x); });
    case Intrinsic::smin: return bin2([](V x, V y) { return X.Ite(X.bin(O_SLT, x, y), x, y); });
    case Intrinsic::abs: for (u32 i = 0; i < n; i++) d[i] = X.Ite(X.bin(O_SLT, a[i], X.fromAP(APInt(a[i].w, 0))), X.bin(O_SUB, X.fromAP(APInt(a[i].w, 0)), a[i]), a[i]); return true;
    case Intrinsic::ctpop: for (u32 i = 0; i < n; i++) d[i] = ctpop(a[i]); return true;
    case Intrinsic::cttz: for (u32 i = 0; i < n; i++) d[i] = cttz(a[i]); return true;
    case Intrinsic::ctlz: for (u32 i = 0; i < n; i++) d[i] = ctlz(a[i]); return true;
    case Intrinsic::bswap: for (u32 i = 0; i < n; i++) { V r = X.Ext(a[i], 7, 0); for (u32 b = 8; b < a[i].w; b += 8) r = X.Cat(r, X.Ext(a[i], b + 7, b)); d[i] = r; } return true;
    case Intrinsic::bitreverse: for (u32 i = 0; i < n; i++) { V r = X.Ext(a[i], 0, 0); for (u32 b = 1; b < a[i].w; b++) r = X.Cat(r, X.Ext(a[i], b, b)); d[i] = r; } return true;
    case Intrinsic::fshl: case Intrinsic::fshr: for (u32 i = 0; i < n; i++) { u32 w = a[i].w; V hl = X.Cat(a[i], a[n + i]); V sh = X.bin(O_UREM, a[2 * n + i], X.fromAP(APInt(w, w))); V sw = X.ZExt(sh, 2 * w);
        d[i] = c.imm == Intrinsic::fshl ? X.Ext(X.bin(O_SHL, hl, sw), 2 * w - 1, w) : X.Ext(X.bin(O_LSHR, hl, sw), w - 1, 0); } return true;
    case Intrinsic::uadd_with_overflow: { V r = X.bin(O_ADD, a[0], a[1]); d[1] = X.bin(O_ULT, r, a[0]); d[0] = r; return true; }
    case Intrinsic::usub_with_overflow: { V r = X.bin(O_SUB, a[0], a[1]); d[1] = X.bin(O_ULT, a[0], a[1]); d[0] = r; return true; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: { u32 w = a[0].w; Op op = c.imm == Intrinsic::sadd_with_overflow ? O_ADD : O_SUB; V e = X.bin(op, X.SExt(a[0], w + 1), X.SExt(a[1], w + 1)); V r = X.Trunc(e, w); d[1] = X.Not(X.bin(O_EQ, e, X.SExt(r, w + 1))); d[0] = r; return true; }
    case Intrinsic::umul_with_overflow: { u32 w = a[0].w; V e = X.bin(O_MUL, X.ZExt(a[0], 2 * w), X.ZExt(a[1], 2 * w)); d[0] = X.Trunc(e, w); d[1] = X.Not(X.bin(O_EQ, X.Ext(e, 2 * w - 1, w), X.fromAP(APInt(w, 0)))); return true; }
    case Intrinsic::smul_with_overflow: { u32 w = a[0].w; V e = X.bin(O_MUL, X.SExt(a[0], 2 * w), X.SExt(a[1], 2 * w)); V r = X.Trunc(e, w); d[0] = r; d[1] = X.Not(X.bin(O_EQ, e, X.SExt(r, 2 * w))); return true; }
    case Intrinsic::uadd_sat: return bin2([](V x, V y) { V r = X.bin(O_ADD, x, y); return X.Ite(X.bin(O_ULT, r, x), X.fromAP(APInt::getAllOnes(x.w)), r); });
    case Intrinsic::usub_sat: return bin2([](V x, V y) { return X.Ite(X.bin(O_ULT, x, y), X.fromAP(APInt(x.w, 0)), X.bin(O_SUB, x, y)); });
    case Intrinsic::sadd_sat: return bin2([](V x, V y) { u32 w = x.w; V e = X.bin(O_ADD, X.SExt(x, w + 1), X.SExt(y, w + 1)); V r = X.Trunc(e, w); V ov = X.Not(X.bin(O_EQ, e, X.SExt(r, w + 1))); V neg = X.Ext(e, w, w); return X.Ite(ov, X.Ite(neg, X.fromAP(APInt::getSignedMinValue(w)), X.fromAP(APInt::getSignedMaxValue(w))), r); });
    case Intrinsic::ssub_sat: return bin2([](V x, V y) { u32 w = x.w; V e = X.bin(O_SUB, X.SExt(x, w + 1), X.SExt(y, w + 1)); V r = X.Trunc(e, w); V ov = X.Not(X.bin(O_EQ, e, X.SExt(r, w + 1))); V neg = X.Ext(e, w, w); return X.Ite(ov, X.Ite(neg, X.fromAP(APInt::getSignedMinValue(w)), X.fromAP(APInt::getSignedMaxValue(w))), r); });
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: { Op op = c.imm == Intrinsic::vector_reduce_add ? O_ADD : c.imm == Intrinsic::vector_reduce_or ? O_OR : c.imm == Intrinsic::vector_reduce_and ? O_AND : O_XOR; V r = a[0]; for (size_t i = 1; i < a.size(); i++) r = X.bin(op, r, a[i]); d[0] = r; return true; }
    case Intrinsic::eh_typeid_for: { auto r = tiId.emplace(a[0].c, (int)tiId.size() + 1); d[0] = C(32, r.first->second); return true; }
    case Intrinsic::stacksave: d[0] = C(64, 0); return true; case Intrinsic::stackrestore: return true;
    case Intrinsic::x86_sse2_pmovmskb_128: case Intrinsic::x86_avx2_pmovmskb: { V r = V{0, nullptr, 0}; for (size_t i = 0; i < a.size(); i++) { V b = X.Ext(a[i], 7, 7); r = r.w ? X.Cat(b, r) : b; } d[0] = X.ZExt(r, 32); return true; }
    case Intrinsic::x86_sse_movmsk_ps: case Intrinsic::x86_sse2_movmsk_pd: { V r = V{0, nullptr, 0}; for (size_t i = 0; i < a.size(); i++) { V b = X.Ext(a[i], a[i].w - 1, a[i].w - 1); r = r.w ? X.Cat(b, r) : b; } d[0] = X.ZExt(r, 32); return true; }
    case Intrinsic::x86_sse42_crc32_32_8: case Intrinsic::x86_sse42_crc32_32_16: case Intrinsic::x86_sse42_crc32_32_32: d[0] = crc32c(a[0], a[1]); return true;
    case Intrinsic::x86_sse42_crc32_64_64: d[0] = X.ZExt(crc32c(X.Trunc(a[0], 32), a[1]), 64); return true;
    case Intrinsic::x86_sse42_pcmpestri128: case Intrinsic::x86_sse42_pcmpestric128: { // explicit lengths, EQUAL_EACH on bytes or words, least significant index
        u32 m = (u32)a[34].c, w = m & 1 ? 16 : 8, k = 128 / w; if ((m & 0x4C) != 8) unsupported("pcmpestr mode"); i64 la = (int32_t)concretize(s, a[16]), lb = (int32_t)concretize(s, a[33]); la = std::min<i64>(std::abs(la), k); lb = std::min<i64>(std::abs(lb), k);
        auto el = [&](u32 o, u32 i) { return w == 8 ? a[o + i] : X.Cat(a[o + 2 * i + 1], a[o + 2 * i]); }; V idx = C(32, k), any = C(1, 0);
        for (u32 i = k; i-- > 0;) { V b = i < la && i < lb ? X.bin(O_EQ, el(0, i), el(17, i)) : C(1, i >= la && i >= lb); if (m & 0x10 && (!(m & 0x20) || i < lb)) b = X.Not(b); idx = X.Ite(b, C(32, i), idx); any = X.bin(O_OR, any, b); }
        d[0] = c.imm == Intrinsic::x86_sse42_pcmpestri128 ? idx : X.ZExt(any, 32); return true; }
    case Intrinsic::x86_ssse3_psign_b_128: case Intrinsic::x86_ssse3_psign_w_128: case Intrinsic::x86_ssse3_psign_d_128: case Intrinsic::x86_avx2_psign_b: case Intrinsic::x86_avx2_psign_w: case Intrinsic::x86_avx2_psign_d: {
        for (u32 i = 0; i < n; i++) { u32 w = a[i].w; V z = C(w, 0); d[i] = X.Ite(X.bin(O_EQ, a[n + i], z), z, X.Ite(X.Ext(a[n + i], w - 1, w - 1), X.bin(O_SUB, z, a[i]), a[i])); } return true; }
    case Intrinsic::x86_ssse3_pshuf_b_128: case Intrinsic::x86_avx2_pshuf_b: { std::vector<V> o(n); for (u32 i = 0; i < n; i++) { V m = a[n + i]; u32 base = i & ~15u; V sel = X.Ext(m, 3, 0); V r;
        if (!sel.n) r = a[base + sel.c]; else { r = a[base]; for (u32 k = 1; k < 16; k++) r = X.Ite(X.bin(O_EQ, sel, C(4, k)), a[base + k], r); }
        o[i] = X.Ite(X.Ext(m, 7, 7), C(8, 0), r); } for (u32 i = 0; i < n; i++) d[i] = o[i]; return true; }
    case Intrinsic::x86_sse41_ptestz: case Intrinsic::x86_avx_ptestz_256: case Intrinsic::x86_sse41_ptestc: case Intrinsic::x86_avx_ptestc_256: case Intrinsic::x86_sse41_ptestnzc: case Intrinsic::x86_avx_ptestnzc_256: {
        size_t h = a.size() / 2; V z = C(1, 1), cc = C(1, 1); for (size_t i = 0; i < h; i++) { V zero = X.fromAP(APInt(a[i].w, 0)); z = X.bin(O_AND, z, X.bin(O_EQ, X.bin(O_AND, a[i], a[h + i]), zero)); cc = X.bin(O_AND, cc, X.bin(O_EQ, X.bin(O_AND, X.Not(a[i]), a[h + i]), zero)); }
        bool isz = c.imm == Intrinsic::x86_sse41_ptestz || c.imm == Intrinsic::x86_avx_ptestz_256, isc = c.imm == Intrinsic::x86_sse41_ptestc || c.imm == Intrinsic::x86_avx_ptestc_256; V r = isz ? z : isc ? cc : X.bin(O_AND, X.Not(z), X.Not(cc)); d[0] = X.ZExt(r, 32); return true; }
    case Intrinsic::x86_sse2_psad_bw: case Intrinsic::x86_avx2_psad_bw: { for (u32 q = 0; q < n; q++) { V r = C(64, 0); for (u32 k = 0; k < 8; k++) { V x = X.ZExt(a[q * 8 + k], 64), y = X.ZExt(a[n * 8 + q * 8 + k], 64); V df = X.Ite(X.bin(O_ULT, x, y), X.bin(O_SUB, y, x), X.bin(O_SUB, x, y)); r = X.bin(O_ADD, r, df); } d[q] = r; } return true; }
    case Intrinsic::x86_bmi_bextr_32: case Intrinsic::x86_bmi_bextr_64: { u32 w = a[0].w; V st = X.ZExt(X.Ext(a[1], 7, 0), w), ln = X.ZExt(X.Ext(a[1], 15, 8), w); V sh = X.bin(O_LSHR, a[0], st); V m = X.bin(O_SUB, X.bin(O_SHL, X.fromAP(APInt(w, 1)), ln), X.fromAP(APInt(w, 1))); m = X.Ite(X.bin(O_ULT, ln, X.fromAP(APInt(w, w))), m, X.fromAP(APInt::getAllOnes(w))); d[0] = X.bin(O_AND, sh, m); return true; }
    case Intrinsic::x86_bmi_bzhi_32: case Intrinsic::x86_bmi_bzhi_64: { u32 w = a[0].w; V ln = X.ZExt(X.Ext(a[1], 7, 0), w); V m = X.bin(O_SUB, X.bin(O_SHL, X.fromAP(APInt(w, 1)), ln), X.fromAP(APInt(w, 1))); m = X.Ite(X.bin(O_ULT, ln, X.fromAP(APInt(w, w))), m, X.fromAP(APInt::getAllOnes(w))); d[0] = X.bin(O_AND, a[0], m); return true; }
    case Intrinsic::fabs: d[0] = X.bin(O_AND, a[0], C(a[0].w, maskw(a[0].w - 1))); return true;
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::sqrt: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::round: { u64 x = concretize(s, a[0]); double v = asD(C(a[0].w, x)); double r = c.imm == Intrinsic::floor ? floor(v) : c.imm == Intrinsic::ceil ? ceil(v) : c.imm == Intrinsic::sqrt ? sqrt(v) : c.imm == Intrinsic::trunc ? trunc(v) : c.imm == Intrinsic::round ? round(v) : rint(v); d[0] = fromD(r, a[0].w); return true; }
    case Intrinsic::fmuladd: case Intrinsic::fma: { double x = asD(C(a[0].w, concretize(s, a[0]))), y = asD(C(a[0].w, concretize(s, a[1]))), z = asD(C(a[0].w, concretize(s, a[2]))); d[0] = fromD(c.imm == Intrinsic::fma ? fma(x, y, z) : x * y + z, a[0].w); return true; }
    case Intrinsic::maxnum: case Intrinsic::minnum: { double x = asD(C(a[0].w, concretize(s, a[0]))), y = asD(C(a[0].w, concretize(s, a[1]))); d[0] = fromD(c.imm == Intrinsic::maxnum ? fmax(x, y) : fmin(x, y), a[0].w); return true; }
    default: unsupported("intrinsic " + Intrinsic::getBaseName((Intrinsic::ID)c.imm).str());
  }
}
static bool icmpFold(unsigned p, const V &a, const V &b, V &r) {
  switch (p) {
    case CmpInst::ICMP_EQ: r = X.bin(O_EQ, a, b); return true; case CmpInst::ICMP_NE: r = X.Not(X.bin(O_EQ, a, b)); return true;
    case CmpInst::ICMP_ULT: r = X.bin(O_ULT, a, b); return true; case CmpInst::ICMP_ULE: r = X.bin(O_ULE, a, b); return true;
    case CmpInst::ICMP_UGT: r = X.bin(O_ULT, b, a); return true; case CmpInst::ICMP_UGE: r = X.bin(O_ULE, b, a); return true;
    case CmpInst::ICMP_SLT: r = X.bin(O_SLT, a, b); return true; case CmpInst::ICMP_SLE: r = X.bin(O_SLE, a, b); return true;
    case CmpInst::ICMP_SGT: r = X.bin(O_SLT, b, a); return true; case CmpInst::ICMP_SGE: r = X.bin(O_SLE, b, a); return true;
  } return false;
}
static void doCall(State *s, Frame &f, CInst &c) {
  std::vector<V> a; size_t nops = c.ops.size() - (c.intr == -1 ? 1 : 0);
  for (size_t i = 0; i < nops; i++) { const V *v = val(f, c.ops[i]); for (u32 j = 0; j < c.ops[i].n; j++) a.push_back(v[j]); }
  FnInfo *callee = c.callee;
  if (c.intr == -1) { u64 t = concretize(s, *val(f, c.ops.back())); auto it = FADDR.find(t); if (it == FADDR.end()) fail("call through an invalid function pointer"); callee = it->second; }
  if (c.intr == -2) { for (u32 i = 0; i < c.nd; i++) f.regs[c.dst + i] = C(64, 0); if (c.nd) unsupported("inline asm with a result"); if (c.opc == Instruction::Invoke) takeEdge(f, c.edges[0]); else f.pc++; return; }
  if (c.intr == I_LLVM) { intrinsic(s, f, c, a); Frame &g = s->st.back(); if (c.opc == Instruction::Invoke) takeEdge(g, c.edges[0]); else g.pc++; return; }
  if (!callee->F->isDeclaration()) { auto it = EXT.find(callee->name); if (it == EXT.end()) { pushFrame(s, callee, a); return; } }
  auto it = EXT.find(callee->name); int id = it == EXT.end() ? 0 : it->second;
  if (!id) { const std::string &n = callee->name; // constructors / destructors of std exception classes carry no observable state here
    if (n.rfind("_ZNSt", 0) == 0 && (n.find("_error") != std::string::npos || n.find("out_of_range") != std::string::npos || n.find("bad_alloc") != std::string::npos || n.find("exception") != std::string::npos || n.find("argument") != std::string::npos)) id = I_NOP;
    else unsupported("external " + n); }
  size_t depth = s->st.size(); (void)depth;
  if (external(s, f, c, id, callee->name, a)) { Frame &g = s->st.back(); if (c.opc == Instruction::Invoke) takeEdge(g, c.edges[0]); else g.pc++; }
}
static void step(State *s) {
  if (!s->pend.empty()) applySubst(s);
  Frame &f = s->st.back(); CInst &c = f.f->code[f.pc]; f.f->hit[f.pc] = 1; s->insts++; nInsts++;
  switch (c.opc) {
    case Instruction::Ret: { if (c.ops.empty()) ret(s, nullptr, 0); else { const V *v = val(f, c.ops[0]); ret(s, v, c.ops[0].n); } return; }
    case Instruction::Br: {
      if (c.edges.size() == 1) { takeEdge(f, c.edges[0]); return; }
      V cond = lookupKnown(s, *val(f, c.ops[0])); 
      if (!cond.n) { takeEdge(f, c.edges[cond.c ? 0 : 1]); return; }
      bool t = X.evalV(cond, s->model); V other = t ? X.Not(cond) : cond, mine = t ? cond : X.Not(cond); std::vector<u64> m;
      if (!(mine.n && inPC(s, mine.n)) && feasible(s, other, &m) == 1) { uninitCheck(s, cond); State *o = forkState(s); addPC(o, other); o->model = m; takeEdge(o->st.back(), c.edges[t ? 1 : 0]); work.push_back(o); addPC(s, mine); }
      else learn(s, mine);
      takeEdge(f, c.edges[t ? 0 : 1]); return; }
    case Instruction::Switch: {
      V v = *val(f, c.ops[0]); u64 x = X.evalV(v, s->model); u32 e = 0; for (size_t i = 0; i < c.cases.size(); i++) if (c.cases[i] == APInt(v.w, x)) e = i + 1;
      if (v.n) { V cond = C(1, 0); if (e) { for (size_t i = 0; i < c.cases.size(); i++) if (c.edges[i + 1].pc == c.edges[e].pc && c.edges[e].phis.empty()) cond = X.bin(O_OR, cond, X.bin(O_EQ, v, X.fromAP(c.cases[i]))); else if (i + 1 == e) cond = X.bin(O_OR, cond, X.bin(O_EQ, v, X.fromAP(c.cases[i]))); }
        else { cond = C(1, 1); for (auto &k : c.cases) cond = X.bin(O_AND, cond, X.Not(X.bin(O_EQ, v, X.fromAP(k)))); }
        std::vector<u64> m; V nc = X.Not(cond); if (feasible(s, nc, &m) == 1) { uninitCheck(s, cond); State *o = forkState(s); addPC(o, nc); o->model = m; work.push_back(o); } addPC(s, cond); }
      takeEdge(f, c.edges[e]); return; }
    case Instruction::Call: case Instruction::Invoke: doCall(s, f, c); return;
    case Instruction::Unreachable: fail("unreachable executed");
    case Instruction::Resume: { const V *v = val(f, c.ops[0]); u64 exc = v[0].c; u64 ti = s->excType.count(exc) ? s->excType[exc] : s->excTi; popFrame(s); unwind(s, exc, ti); return; }
    case Instruction::LandingPad: unsupported("landingpad executed directly");
    case Instruction::Alloca: { u64 n = concretize(s, *val(f, c.ops[0])); u64 b = allocObj(s, c.imm * n, K_STACK, std::max<u64>(c.imm2, 8), heapFill); f.allocas.push_back(b); f.regs[c.dst] = C(64, b); break; }
    case Instruction::Load: {
      V a = *val(f, c.ops[0]); bool mux = false; Obj *mo = nullptr; u64 ad = resolve(s, a, c.imm, false, &mux, &mo);
      if (mux) { V off = X.bin(O_SUB, a, C(64, mo->base)); int bits = 0; while ((1ull << bits) < mo->size) bits++;
        if (!mo->ro) { for (u32 i = 0; i < c.leafW.size(); i++) { unsigned lv = 0; V r, of = c.leafOff[i] ? X.bin(O_ADD, off, C(64, c.leafOff[i])) : off; if (!muxMut(mo, of, c.leafW[i], (c.leafW[i] + 7) / 8, bits - 1, 0, lv, r)) unsupported("symbolic read"); if (!r.w) r = C(c.leafW[i], 0); f.regs[c.dst + i] = r; } break; }
        int lowz = 0; while (lowz < bits) { V b = X.Ext(off, lowz, lowz); if (!b.n && !b.c) lowz++; else break; }
        for (u32 i = 0; i < c.leafW.size(); i++) f.regs[c.dst + i] = muxRead(mo, off, c.leafOff[i], c.leafW[i], bits - 1, 0, lowz); break; }
      int ix; Obj *o = access(s, ad, c.imm, false, &ix); u64 off = ad - o->base;
      if (c.nd > 1 && c.leafW[0] == 1) { V all = loadBytes(o, off, c.imm * 8); for (u32 i = 0; i < c.nd; i++) f.regs[c.dst + i] = X.Ext(all, i, i); break; }
      for (u32 i = 0; i < c.leafW.size(); i++) f.regs[c.dst + i] = loadBytes(o, off + c.leafOff[i], c.leafW[i]); break; }
    case Instruction::Store: {
      V a = *val(f, c.ops[1]); u64 ad = resolve(s, a, c.imm, true); int ix; Obj *o = access(s, ad, c.imm, true, &ix); o = writable(s, ix); const V *v = val(f, c.ops[0]);
      if (c.ops[0].n > 1 && c.leafW[0] == 1) { storeBytes(o, ad - o->base, catAll(v, c.ops[0].n)); break; }
      for (u32 i = 0; i < c.ops[0].n; i++) storeBytes(o, ad - o->base + c.leafOff[i], v[i]); break; }
    case Instruction::GetElementPtr: { if (c.nd != 1) unsupported("vector gep"); V p = *val(f, c.ops[0]); if (c.imm) p = X.bin(O_ADD, p, C(64, c.imm));
      for (auto &ix : c.idx) { V i = *val(f, ix.first); i = i.w < 64 ? X.SExt(i, 64) : i.w > 64 ? X.Trunc(i, 64) : i; p = X.bin(O_ADD, p, X.bin(O_MUL, i, C(64, ix.second))); } f.regs[c.dst] = p; break; }
    case Instruction::ExtractValue: { const V *v = val(f, c.ops[0]); for (u32 i = 0; i < c.nd; i++) f.regs[c.dst + i] = v[c.imm + i]; break; }
    case Instruction::InsertValue: { std::vector<V> t(c.nd); const V *v = val(f, c.ops[0]); for (u32 i = 0; i < c.nd; i++) t[i] = v[i]; const V *e = val(f, c.ops[1]); for (u32 i = 0; i < c.ops[1].n; i++) t[c.imm + i] = e[i]; for (u32 i = 0; i < c.nd; i++) f.regs[c.dst + i] = t[i]; break; }
    case Instruction::ExtractElement: { u64 i = concretize(s, *val(f, c.ops[1])); if (i >= c.ops[0].n) i = 0; f.regs[c.dst] = val(f, c.ops[0])[i]; break; }
    case Instruction::InsertElement: { u64 k = concretize(s, *val(f, c.ops[2])); const V *v = val(f, c.ops[0]); V e = *val(f, c.ops[1]); std::vector<V> t(v, v + c.nd); if (k < c.nd) t[k] = e; for (u32 i = 0; i < c.nd; i++) f.regs[c.dst + i] = t[i]; break; }
    case Instruction::ShuffleVector: { const V *x = val(f, c.ops[0]), *y = val(f, c.ops[1]); u32 n = c.ops[0].n; std::vector<V> t; for (int m : c.mask) { if (m < 0) t.push_back(X.fromAP(APInt(x[0].w, 0))); else t.push_back((u32)m < n ? x[m] : y[m - n]); } for (u32 i = 0; i < c.nd; i++) f.regs[c.dst + i] = t[i]; break; }
    case Instruction::Select: { const V *cd = val(f, c.ops[0]), *x = val(f, c.ops[1]), *y = val(f, c.ops[2]); bool vec = c.ops[0].n > 1; std::vector<V> t(c.nd); for (u32 i = 0; i < c.nd; i++) t[i] = X.Ite(cd[vec ? i : 0], x[i], y[i]); for (u32 i = 0; i < c.nd; i++) f.regs[c.dst + i] = t[i]; break; }
    case Instruction::Freeze: { const V *x = val(f, c.ops[0]); for (u32 i = 0; i < c.nd; i++) f.regs[c.dst + i] = x[i]; break; }
    case Instruction::ICmp: { const V *x = val(f, c.ops[0]), *y = val(f, c.ops[1]); unsigned p = cast<ICmpInst>(c.I)->getPredicate(); for (u32 i = 0; i < c.nd; i++) { V r; icmpFold(p, x[i], y[i], r); f.regs[c.dst + i] = r; } break; }
    case Instruction::FCmp: { const V *xv = val(f, c.ops[0]), *yv = val(f, c.ops[1]); for (u32 i = 0; i < c.nd; i++) f.regs[c.dst + i] = fcmpV(cast<FCmpInst>(c.I)->getPredicate(), xv[i], yv[i]); break; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { for (u32 i = 0; i < c.nd; i++) { V x = val(f, c.ops[0])[i], y = val(f, c.ops[1])[i]; x = C(x.w, concretize(s, x)); y = C(y.w, concretize(s, y)); f.regs[c.dst + i] = fpop(c.opc, x, y, x.w); } break; }
    case Instruction::FNeg: { for (u32 i = 0; i < c.nd; i++) { V x = val(f, c.ops[0])[i]; f.regs[c.dst + i] = X.bin(O_XOR, x, C(x.w, 1ull << (x.w - 1))); } break; }
    case Instruction::UIToFP: case Instruction::SIToFP: { for (u32 i = 0; i < c.nd; i++) { V x = val(f, c.ops[0])[i]; u64 v = concretize(s, x); u32 w = c.leafW[i];
        if (w == 64) f.regs[c.dst + i] = fromD(c.opc == Instruction::UIToFP ? (double)v : (double)sext64(v, x.w), 64); else { float g = c.opc == Instruction::UIToFP ? (float)v : (float)sext64(v, x.w); u32 o; memcpy(&o, &g, 4); f.regs[c.dst + i] = C(32, o); } } break; }
    case Instruction::FPToUI: case Instruction::FPToSI: { for (u32 i = 0; i < c.nd; i++) { V x = val(f, c.ops[0])[i]; double v = asD(C(x.w, concretize(s, x))); f.regs[c.dst + i] = C(c.leafW[i], c.opc == Instruction::FPToUI ? (u64)v : (u64)(i64)v); } break; }
    case Instruction::FPExt: case Instruction::FPTrunc: { for (u32 i = 0; i < c.nd; i++) { V x = val(f, c.ops[0])[i]; double v = asD(C(x.w, concretize(s, x))); f.regs[c.dst + i] = fromD(v, c.leafW[i]); } break; }
    case Instruction::ZExt: { const V *x = val(f, c.ops[0]); for (u32 i = 0; i < c.nd; i++) f.regs[c.dst + i] = X.ZExt(x[i], c.leafW[i]); break; }
    case Instruction::SExt: { const V *x = val(f, c.ops[0]); for (u32 i = 0; i < c.nd; i++) f.regs[c.dst + i] = X.SExt(x[i], c.leafW[i]); break; }
    case Instruction::Trunc: { const V *x = val(f, c.ops[0]); for (u32 i = 0; i < c.nd; i++) f.regs[c.dst + i] = X.Trunc(x[i], c.leafW[i]); break; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { const V *x = val(f, c.ops[0]); for (u32 i = 0; i < c.nd; i++) { u32 w = c.leafW[i]; f.regs[c.dst + i] = x[i].w == w ? x[i] : x[i].w < w ? X.ZExt(x[i], w) : X.Trunc(x[i], w); } break; }
    case Instruction::AddrSpaceCast: f.regs[c.dst] = *val(f, c.ops[0]); break;
    case Instruction::BitCast: { const V *x = val(f, c.ops[0]); u32 n = c.ops[0].n; if (n == c.nd && x[0].w == c.leafW[0]) { for (u32 i = 0; i < n; i++) f.regs[c.dst + i] = x[i]; break; }
      if (n > c.nd && n % c.nd == 0) { u32 k = n / c.nd; std::vector<V> t; for (u32 i = 0; i < c.nd; i++) t.push_back(catAll(x + i * k, k)); for (u32 i = 0; i < c.nd; i++) f.regs[c.dst + i] = t[i]; break; }
      if (c.nd > n && c.nd % n == 0) { u32 k = c.nd / n; std::vector<V> t; for (u32 i = 0; i < n; i++) for (u32 j = 0; j < k; j++) { u32 w = c.leafW[0]; t.push_back(X.Ext(x[i], (j + 1) * w - 1, j * w)); } for (u32 i = 0; i < c.nd; i++) f.regs[c.dst + i] = t[i]; break; }
      unsupported("bitcast"); }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      static const std::map<unsigned, Op> om = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}};
      static Op tab[128]; static bool ini = false; if (!ini) { for (auto &p : om) tab[p.first] = p.second; ini = true; }
      Op op = tab[c.opc]; const V *x = val(f, c.ops[0]), *y = val(f, c.ops[1]);
      if (op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM) for (u32 i = 0; i < c.nd; i++) { V z = X.bin(O_EQ, y[i], X.fromAP(APInt(y[i].w, 0))); if (!z.n) { if (z.c) fail("division by zero"); } else doCheck(s, X.Not(z), "division by zero"); }
      for (u32 i = 0; i < c.nd; i++) { V r = f.regs[c.dst + i] = X.bin(op, x[i], y[i]); if (op == O_UREM && r.n && (x[i].n || y[i].n)) { V l = X.bin(O_ULT, r, y[i]); if (l.n) addPC(s, l); } } // (a consequence of y != 0 that spares the solver the division)
      break; }
    case Instruction::Fence: break;
    case Instruction::AtomicRMW: { auto *A = cast<AtomicRMWInst>(c.I); V p = *val(f, c.ops[0]); u32 w = c.leafW[0]; u64 ad = resolve(s, p, w / 8, true); int ix; Obj *o = access(s, ad, w / 8, true, &ix); o = writable(s, ix); V old = loadBytes(o, ad - o->base, w), y = *val(f, c.ops[1]), r;
      switch (A->getOperation()) { case AtomicRMWInst::Add: r = X.bin(O_ADD, old, y); break; case AtomicRMWInst::Sub: r = X.bin(O_SUB, old, y); break; case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Or: r = X.bin(O_OR, old, y); break; case AtomicRMWInst::And: r = X.bin(O_AND, old, y); break; default: unsupported("atomicrmw"); } storeBytes(o, ad - o->base, r); f.regs[c.dst] = old; break; }
    default: unsupported(std::string("instruction ") + c.I->getOpcodeName());
  }
  if (!s->known.empty()) for (u32 i = 0; i < c.nd; i++) { V &v = f.regs[c.dst + i]; if (v.n) v = lookupKnown(s, v); }
  f.pc++;
}
static double rssMB() { FILE *fp = fopen("/proc/self/statm", "r"); long a = 0, b = 0; if (fp) { if (fscanf(fp, "%ld %ld", &a, &b) != 2) b = 0; fclose(fp); } return b * 4096.0 / 1048576; }
static std::vector<std::string> wits; static unsigned witN = 0;
static unsigned hop = 0; static u64 hopN = 0, hopR = 1;
static void runAll() {
  while (!work.empty() && !stop) {
    if (hop && ++hopN % hop == 0 && work.size() > 1) { hopR = hopR * 6364136223846793005ull + 1442695040888963407ull; std::swap(work.back(), work[(hopR >> 33) % work.size()]); }
    State *s = work.back(); work.pop_back(); cur = s;
    try { u64 k = 0;
      while (!s->st.empty()) { step(s);
        if ((++k & 0x3fff) == 0) { if (now() > tEnd || (((k & 0xfffff) == 0) && rssMB() > memLimitMB)) { timedOut = true; stop = true; break; } if (s->insts > pathLimit) { nLimit++; fail("no termination within the instruction bound"); } } }
      if (s->st.empty()) { nPaths++; if (witN && s->model.size() <= X.vars.size()) { u64 r = nPaths * 0x9E3779B97F4A7C15ull; r ^= r >> 29; if (wits.size() < witN) { s->model.resize(X.vars.size(), 0); wits.push_back(inputsJson(s, s->model)); } else if (r % nPaths < witN) { s->model.resize(X.vars.size(), 0); wits[r % witN] = inputsJson(s, s->model); } } }
    } catch (PathEnd &) {}
    if (s->insts > nMaxInst) nMaxInst = s->insts;
    delete s; if (now() > tEnd && !work.empty()) { timedOut = true; stop = true; }
  }
}
} // namespace sx
using namespace sx;
int main(int argc, char **argv) {
  std::string bc, entry, out; double tl = 1e9;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--uninit") uninitN = 1024; else if (a == "--time") tl = atof(nx().c_str()); else if (a == "--param") params.push_back(strtoull(nx().c_str(), 0, 0)); else if (a == "--maxviol") maxViol = atoi(nx().c_str()); else if (a == "--pathlimit") pathLimit = strtoull(nx().c_str(), 0, 0); else if (a == "--fill") heapFill = strtoul(nx().c_str(), 0, 0); else if (a == "--qtimeout") S.timeout_ms = atoi(nx().c_str()); else if (a == "--hop") hop = atoi(nx().c_str()); else if (a == "--seed") hopR = strtoull(nx().c_str(), 0, 0); else if (a == "--witness") witN = atoi(nx().c_str()); else if (a == "--mem") memLimitMB = atof(nx().c_str()); else bc = a; }
  double t0 = now(); tEnd = t0 + tl; SMDiagnostic err; M = parseIRFile(bc, err, LC); if (!M) { err.print("symx", errs()); return 4; } DL = &M->getDataLayout();
  S.init();
  std::thread([] { for (;;) { usleep(200000); double q = S.qstart, t = now(); if (q > 0 && (t - q > S.timeout_ms / 1000.0 + 1 || t > tEnd)) Z3_interrupt(S.z); } }).detach();
  for (auto &G : M->globals()) gaddr(&G);
  for (auto &F : *M) if (!F.isIntrinsic()) fnInfo(&F);
  for (size_t i = 0; i < pendingInit.size(); i++) { writeConst(pendingInit[i].first->getInitializer(), pendingInit[i].second); }
  auto byBase = [](const ORef &a, const ORef &b) { return a->base < b->base; }; std::sort(RO.begin(), RO.end(), byBase); std::sort(initMem.v.begin(), initMem.v.end(), byBase);
  // global constructors
  auto runFn = [&](State *s, Function *F) { cur = s; pushFrame(s, fnInfo(F), {}); };
  for (u32 i = 0; i < 2 * uninitN; i++) X.var("uninit", 8);
  State *s0 = new State; s0->mem = initMem; s0->model.assign(2 * uninitN, heapFill);
  if (auto *GC = M->getGlobalVariable("llvm.global_ctors")) if (GC->hasInitializer()) if (auto *CA = dyn_cast<ConstantArray>(GC->getInitializer())) {
    std::vector<std::pair<u64, Function *>> L; for (auto &o : CA->operands()) { auto *cs = cast<ConstantStruct>(o.get()); if (auto *F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) L.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F}); }
    std::stable_sort(L.begin(), L.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &p : L) { try { runFn(s0, p.second); while (!s0->st.empty()) step(s0); } catch (PathEnd &) { errors.push_back("global constructor did not complete"); } } }
  Function *E = M->getFunction(entry); if (!E) { fprintf(stderr, "symx: no entry %s\n", entry.c_str()); return 4; }
  s0->insts = 0; runFn(s0, E); work.push_back(s0); runAll();
  if (getenv("SX_PROF")) { std::vector<std::pair<double, std::string>> v; for (auto &p : prof) v.push_back({p.second.t, std::to_string(p.second.n) + " unsat " + std::to_string(p.second.u) + " " + p.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "%.2fs %s\n", v[i].first, v[i].second.substr(0, 300).c_str()); }
  // functions of the code under test that were executed
  std::set<std::string> fns; std::map<std::string, std::set<unsigned>> lines;
  for (auto &p : FN) { FnInfo *f = p.second; for (size_t i = 0; i < f->hit.size(); i++) if (f->hit[i] && f->code[i].I) for (const DILocation *l = f->code[i].I->getDebugLoc(); l; l = l->getInlinedAt()) {
      std::string fi = l->getFilename().str(); if (fi.empty() || fi[0] != '/') fi = l->getDirectory().str() + "/" + fi; size_t k = fi.find("/src/jstd/"); if (k == std::string::npos) continue; fi = fi.substr(k + 5); lines[fi].insert(l->getLine());
      if (auto *SP = l->getScope()->getSubprogram()) fns.insert(fi + ":" + SP->getName().str()); } }
  std::string o = "{\n";
  auto list = [&](const char *k, std::vector<std::string> v) { o += std::string("\"") + k + "\": ["; bool fst = true; for (auto &x : v) { o += (fst ? "\"" : ", \"") + jesc(x) + "\""; fst = false; } o += "],\n"; };
  o += "\"violations\": ["; bool first = true; for (auto &v : viols) { o += std::string(first ? "" : ", ") + "{\"msg\": \"" + jesc(v.msg) + "\", \"loc\": \"" + jesc(v.loc) + "\", \"inputs\": " + v.inputs + "}"; first = false; } o += "],\n";
  o += "\"witnesses\": ["; first = true; for (auto &w : wits) { o += std::string(first ? "" : ", ") + w; first = false; } o += "],\n";
  list("errors", errors); list("unknowns", std::vector<std::string>(unknowns.begin(), unknowns.end())); list("functions", std::vector<std::string>(fns.begin(), fns.end()));
  o += "\"reach\": {"; first = true; for (auto &p : reaches) { o += std::string(first ? "" : ", ") + "\"" + jesc(p.first) + "\": " + std::to_string(p.second); first = false; } o += "},\n";
  o += "\"checks\": {"; first = true; for (auto &p : checks) { o += std::string(first ? "" : ", ") + "\"" + jesc(p.first) + "\": " + std::to_string(p.second); first = false; } o += "},\n";
  o += "\"lines\": {"; first = true; for (auto &p : lines) { o += std::string(first ? "" : ", ") + "\"" + jesc(p.first) + "\": ["; bool f2 = true; for (unsigned l : p.second) { o += (f2 ? "" : ",") + std::to_string(l); f2 = false; } o += "]"; first = false; } o += "},\n";
  char b[1024]; snprintf(b, sizeof b, "\"paths\": %llu, \"forks\": %llu, \"pruned\": %llu, \"pending\": %zu, \"instructions\": %llu, \"max_path_instructions\": %llu, \"assertions\": %llu, \"symbolic_assertions\": %llu, \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"cache_hits\": %llu, \"solver_s\": %.3f, \"max_query_s\": %.3f, \"wall_s\": %.3f, \"vars\": %zu, \"nodes\": %zu, \"complete\": %s, \"rss_mb\": %.0f\n}\n",
    (unsigned long long)nPaths, (unsigned long long)nForks, (unsigned long long)nPruned, work.size(), (unsigned long long)nInsts, (unsigned long long)nMaxInst, (unsigned long long)totalChecks, (unsigned long long)symChecks, (unsigned long long)S.queries, (unsigned long long)S.sat, (unsigned long long)S.unsat, (unsigned long long)S.unknown, (unsigned long long)nCacheHits, S.time, S.maxq, now() - t0, X.vars.size(), X.nodes.size(), (!timedOut && (viols.empty() || !stop)) ? "true" : "false", rssMB());
  o += b;
  if (out.empty()) fputs(o.c_str(), stdout); else { FILE *fp = fopen(out.c_str(), "w"); fputs(o.c_str(), fp); fclose(fp); }
  fflush(nullptr); _exit(errors.size() ? 3 : viols.size() ? 1 : 0);
}
