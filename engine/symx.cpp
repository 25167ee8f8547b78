// symx: a symbolic executor for LLVM IR.
//
// Executes a harness linked against the bitcode of the program under test and
// a model of its environment. Inputs are bit-vector symbols; each branch whose
// condition depends on them is decided by an SMT solver (z3), both sides are
// followed when both are satisfiable, and each assertion, memory access and
// division is a query over all values which reach it.
#include <algorithm>
#include <cassert>
#include <cmath>
#include <csignal>
#include <ctime>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <unordered_set>

#include <fcntl.h>
#include <regex.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

#include <z3.h>

#include "expr.h"

using std::string;
using std::vector;

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

// ---------------------------------------------------------------- options
static string optEntry = "harness", optOut = ".";
static double optTimeout = 300;
static unsigned optJobs = 8, optSamples = 8, optMaxEnum = 4096;
static uint64_t optMaxInstr = 400000000ull;
static unsigned optSolverMs = 20000;
static vector<string> optKnown;
static bool optTrace = false, optStop = true;
static unsigned long optSeed = 1;
static double tStart;

// ---------------------------------------------------------------- shared statistics
struct Shared {
  volatile int active, stop, crashed, incomplete;
  volatile uint64_t paths, assumed, forks, instrs, queries, queriesSat, queriesUnsat, cacheHits, solverUs, unknown,
      asserts, assertsSolver, memChecks, violations, knownHits, procs, samples, maxConstraints, maxFrames, errors, workerSeq, pruned;
  char firstError[400];
  int nCover;
  struct { char name[96]; volatile uint64_t hits; } cover[512];
  int nViol;
  struct { char msg[300]; char file[200]; } viol[64];
  volatile int lock;
  uint8_t funcHit[8192];
  uint8_t blockHit[65536];
};
static Shared *sh;
static void shLock() { while (__sync_lock_test_and_set(&sh->lock, 1)) usleep(50); }
static void shUnlock() { __sync_lock_release(&sh->lock); }
#define SHADD(f, n) __sync_fetch_and_add(&sh->f, (uint64_t)(n))

static ExprPool P;

// ---------------------------------------------------------------- solver
using Model = std::shared_ptr<const vector<uint64_t>>;

static string where();
struct Solver {
  Z3_context ctx = nullptr;
  Z3_solver s = nullptr;
  vector<Z3_ast> asts;                        // by expr id
  std::unordered_map<uint32_t, Z3_ast> lits;  // constraint -> literal
  size_t litCount = 0;
  struct CacheEntry { int res; vector<std::pair<uint32_t, uint64_t>> model; };
  struct VecHash { size_t operator()(const vector<uint32_t> &v) const { size_t h = v.size(); for (auto x : v) h = h * 1000003 ^ x; return h; } };
  std::unordered_map<vector<uint32_t>, CacheEntry, VecHash> cache;

  void init() {
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg);
    Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); });
    newSolver();
  }
  bool fp = false, usesFP = false;  // theory of floating point needed
  void newSolver() {
    fp = usesFP;
    if (s) Z3_solver_dec_ref(ctx, s);
    s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, fp ? "QF_FPBV" : "QF_BV"));
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), optSolverMs);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), (unsigned)optSeed);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
    lits.clear();
    litCount = 0;
  }
  Z3_ast boolToBv(Z3_ast b) {
    Z3_sort s1 = Z3_mk_bv_sort(ctx, 1);
    return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, s1), Z3_mk_unsigned_int64(ctx, 0, s1));
  }
  static bool isBoolKind(Expr *e) { return e->w == 1; }
  // 1-bit expressions are translated to Booleans, others to bit-vectors.
  Z3_ast tr(Expr *e) {
    if (e->id < asts.size() && asts[e->id]) return asts[e->id];
    // iterative post-order to keep deep chains off the stack
    vector<Expr *> st{e};
    while (!st.empty()) {
      Expr *x = st.back();
      if (x->id < asts.size() && asts[x->id]) { st.pop_back(); continue; }
      bool ready = true;
      for (Expr *o : {x->a, x->b, x->d})
        if (ExprPool::onFX(x)) { for (Expr *q = ExprPool::isC(x->a) ? x->b : x->a; ; q = q->a) if (q->k == K_UTOF) { if (!(q->a->id < asts.size() && asts[q->a->id])) { st.push_back(q->a); ready = false; } break; } break; }
        else if (o && !(o->id < asts.size() && asts[o->id])) { st.push_back(o); ready = false; }
      if (!ready) continue;
      st.pop_back();
      Z3_ast r = tr1(x);
      Z3_inc_ref(ctx, r);
      if (asts.size() <= x->id) asts.resize(P.all.size() + 64, nullptr);
      asts[x->id] = r;
    }
    return asts[e->id];
  }
  Z3_ast A(Expr *e) { return asts[e->id]; }
  Z3_ast B(Expr *e) { return e->w == 1 ? boolToBv(A(e)) : A(e); }  // as bit-vector
  Z3_ast bvToBool(Z3_ast b) { return Z3_mk_eq(ctx, b, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); }
  Z3_ast rne() { return Z3_mk_fpa_rne(ctx); }
  // the floating point value of bits; what was a value before is not encoded twice
  std::unordered_map<Z3_ast, Z3_ast> fps;
  Z3_ast F(Expr *e) {
    Z3_ast b = A(e);
    auto it = fps.find(b);
    return it != fps.end() ? it->second : Z3_mk_fpa_to_fp_bv(ctx, b, Z3_mk_fpa_sort_double(ctx));
  }
  Z3_ast unf(Z3_ast f) {
    Z3_inc_ref(ctx, f);
    Z3_ast b = Z3_mk_fpa_to_ieee_bv(ctx, f);
    Z3_inc_ref(ctx, b);
    fps[b] = f;
    return b;
  }
  static const unsigned FXW = 160;
  struct FX { Z3_ast m; int e; unsigned nb; };  // m * 2^e, below 2^nb * 2^e
  std::unordered_map<uint32_t, FX> fxs;
  Z3_ast big(unsigned __int128 v, int shift = 0) {
    Z3_sort s64 = Z3_mk_bv_sort(ctx, 64);
    Z3_ast r = Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (uint64_t)(v >> 64), s64), Z3_mk_unsigned_int64(ctx, (uint64_t)v, s64));
    r = Z3_mk_zero_ext(ctx, FXW - 128, r);
    return shift ? Z3_mk_bvshl(ctx, r, Z3_mk_unsigned_int64(ctx, shift, Z3_mk_bv_sort(ctx, FXW))) : r;
  }
  Z3_ast shr(Z3_ast m, unsigned n) { return n ? Z3_mk_bvlshr(ctx, m, Z3_mk_unsigned_int64(ctx, n, Z3_mk_bv_sort(ctx, FXW))) : m; }
  Z3_ast shl(Z3_ast m, unsigned n) { return n ? Z3_mk_bvshl(ctx, m, Z3_mk_unsigned_int64(ctx, n, Z3_mk_bv_sort(ctx, FXW))) : m; }
  // to 53 significant bits, to the nearest, or to even
  Z3_ast round53(Z3_ast m, unsigned nb) {
    Z3_ast r = m;
    for (unsigned x = 1; 53 + x <= nb; x++) {  // from 52 + x bits on
      Z3_ast q = shr(m, x), half = big((unsigned __int128)1 << (x - 1)), rest = Z3_mk_bvsub(ctx, m, shl(q, x));
      Z3_ast odd = Z3_mk_eq(ctx, Z3_mk_extract(ctx, x, x, m), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
      Z3_ast tie[2] = {Z3_mk_eq(ctx, rest, half), odd}, ups[2] = {Z3_mk_bvugt(ctx, rest, half), Z3_mk_and(ctx, 2, tie)};
      Z3_ast v = shl(Z3_mk_ite(ctx, Z3_mk_or(ctx, 2, ups), Z3_mk_bvadd(ctx, q, big(1)), q), x);
      r = Z3_mk_ite(ctx, Z3_mk_bvuge(ctx, m, big((unsigned __int128)1 << (52 + x))), v, r);
    }
    return r;
  }
  FX fx(Expr *e) {
    auto it = fxs.find(e->id);
    if (it != fxs.end()) return it->second;
    FX r;
    if (e->k == K_UTOF) r = {round53(Z3_mk_zero_ext(ctx, FXW - 64, A(e->a)), 64), 0, 65};
    else {
      r = fx(e->a);
      uint64_t c = (e->b->c & 0xfffffffffffffull) | (1ull << 52);
      int ce = (int)(e->b->c >> 52) - 1023 - 52;
      while (!(c & 1)) { c >>= 1; ce++; }
      r.e += ce;
      if (c != 1) {
        r.nb += 64 - __builtin_clzll(c);
        if (r.nb > FXW) { fprintf(stderr, "symx: product too wide\n"); abort(); }
        r.m = round53(Z3_mk_bvmul(ctx, r.m, big(c)), r.nb);
        r.nb++;
      }
    }
    Z3_inc_ref(ctx, r.m);
    fxs[e->id] = r;
    return r;
  }
  Z3_ast trFX(Expr *e) {
    if (e->k == K_FTOU) {
      FX f = fx(e->a);
      Z3_ast m = f.e < 0 ? shr(f.m, -f.e) : shl(f.m, f.e);
      return Z3_mk_extract(ctx, 63, 0, m);
    }
    bool left = ExprPool::isFX(e->a);
    FX f = fx(left ? e->a : e->b);
    uint64_t bits = (left ? e->b : e->a)->c, c = (bits & 0xfffffffffffffull) | (1ull << 52);
    int ce = (int)(bits >> 52) - 1023 - 52 - f.e;  // compare m to c * 2^ce
    unsigned __int128 lo; bool exact = true;
    if (ce >= 0) {
      if (ce > 74) return (e->k != K_FEQ && left) ? Z3_mk_true(ctx) : Z3_mk_false(ctx);  // above all values
      lo = (unsigned __int128)c << ce;
    } else {
      lo = -ce > 63 ? 0 : c >> -ce;
      exact = -ce <= 63 && (uint64_t)lo << -ce == c;
    }
    if (ce > 74) abort();
    if (e->k == K_FEQ) return exact ? Z3_mk_eq(ctx, f.m, big(lo)) : Z3_mk_false(ctx);
    if (left) return e->k == K_FLT && exact ? Z3_mk_bvult(ctx, f.m, big(lo)) : Z3_mk_bvule(ctx, f.m, big(lo));
    return e->k == K_FLE && exact ? Z3_mk_bvuge(ctx, f.m, big(lo)) : Z3_mk_bvugt(ctx, f.m, big(lo));
  }
  Z3_ast tr1(Expr *e) {
    unsigned w = e->w;
    Z3_ast r;
    if (ExprPool::onFX(e)) return trFX(e);
    if (isFP(e->k)) usesFP = true;
    switch (e->k) {
    case K_CONST:
      if (w == 1) return e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
      return Z3_mk_unsigned_int64(ctx, e->c, Z3_mk_bv_sort(ctx, w));
    case K_SYM: {
      Z3_symbol nm = Z3_mk_int_symbol(ctx, (int)e->c);
      return Z3_mk_const(ctx, nm, w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, w));
    }
    case K_NOT: return Z3_mk_not(ctx, A(e->a));
    case K_ITE: return Z3_mk_ite(ctx, A(e->a), A(e->b), A(e->d));
    case K_EQ: return Z3_mk_eq(ctx, A(e->a), A(e->b));
    case K_ULT: return Z3_mk_bvult(ctx, B(e->a), B(e->b));
    case K_ULE: return Z3_mk_bvule(ctx, B(e->a), B(e->b));
    case K_SLT: return Z3_mk_bvslt(ctx, B(e->a), B(e->b));
    case K_SLE: return Z3_mk_bvsle(ctx, B(e->a), B(e->b));
    case K_UMULO: return Z3_mk_not(ctx, Z3_mk_bvmul_no_overflow(ctx, B(e->a), B(e->b), false));
    case K_CONCAT: r = Z3_mk_concat(ctx, B(e->a), B(e->b)); break;
    case K_EXTRACT: r = Z3_mk_extract(ctx, e->lo + w - 1, e->lo, B(e->a)); break;
    case K_ZEXT: r = Z3_mk_zero_ext(ctx, w - e->a->w, B(e->a)); break;
    case K_SEXT: r = Z3_mk_sign_ext(ctx, w - e->a->w, B(e->a)); break;
    case K_FADD: r = unf(Z3_mk_fpa_add(ctx, rne(), F(e->a), F(e->b))); break;
    case K_FSUB: r = unf(Z3_mk_fpa_sub(ctx, rne(), F(e->a), F(e->b))); break;
    case K_FMUL: r = unf(Z3_mk_fpa_mul(ctx, rne(), F(e->a), F(e->b))); break;
    case K_FDIV: r = unf(Z3_mk_fpa_div(ctx, rne(), F(e->a), F(e->b))); break;
    case K_FEQ: return Z3_mk_fpa_eq(ctx, F(e->a), F(e->b));
    case K_FLT: return Z3_mk_fpa_lt(ctx, F(e->a), F(e->b));
    case K_FLE: return Z3_mk_fpa_leq(ctx, F(e->a), F(e->b));
    case K_UTOF: r = unf(Z3_mk_fpa_to_fp_unsigned(ctx, rne(), A(e->a), Z3_mk_fpa_sort_double(ctx))); break;
    case K_STOF: r = unf(Z3_mk_fpa_to_fp_signed(ctx, rne(), A(e->a), Z3_mk_fpa_sort_double(ctx))); break;
    case K_FTOU: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), F(e->a), 64); break;
    case K_FTOS: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), F(e->a), 64); break;
    default:
      if (w == 1) {
        Z3_ast ab[2] = {A(e->a), A(e->b)};
        if (e->k == K_AND) return Z3_mk_and(ctx, 2, ab);
        if (e->k == K_OR) return Z3_mk_or(ctx, 2, ab);
        if (e->k == K_XOR) return Z3_mk_xor(ctx, ab[0], ab[1]);
      }
      {
        Z3_ast a = B(e->a), b = B(e->b);
        switch (e->k) {
        case K_ADD: r = Z3_mk_bvadd(ctx, a, b); break;
        case K_SUB: r = Z3_mk_bvsub(ctx, a, b); break;
        case K_MUL: r = Z3_mk_bvmul(ctx, a, b); break;
        case K_UDIV: r = Z3_mk_bvudiv(ctx, a, b); break;
        case K_SDIV: r = Z3_mk_bvsdiv(ctx, a, b); break;
        case K_UREM: r = Z3_mk_bvurem(ctx, a, b); break;
        case K_SREM: r = Z3_mk_bvsrem(ctx, a, b); break;
        case K_AND: r = Z3_mk_bvand(ctx, a, b); break;
        case K_OR: r = Z3_mk_bvor(ctx, a, b); break;
        case K_XOR: r = Z3_mk_bvxor(ctx, a, b); break;
        case K_SHL: r = Z3_mk_bvshl(ctx, a, b); break;
        case K_LSHR: r = Z3_mk_bvlshr(ctx, a, b); break;
        case K_ASHR: r = Z3_mk_bvashr(ctx, a, b); break;
        default: abort();
        }
      }
    }
    return w == 1 ? bvToBool(r) : r;
  }
  Z3_ast lit(Expr *c) {
    auto it = lits.find(c->id);
    if (it != lits.end()) return it->second;
    Z3_ast p = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("p" + std::to_string(c->id)).c_str()), Z3_mk_bool_sort(ctx));
    Z3_inc_ref(ctx, p);
    Z3_solver_assert(ctx, s, Z3_mk_implies(ctx, p, tr(c)));
    lits[c->id] = p;
    litCount++;
    return p;
  }
  // 1 sat, 0 unsat, -1 unknown. Model values returned for the symbols involved.
  int check(vector<Expr *> &cs, vector<std::pair<uint32_t, uint64_t>> &model) {
    vector<uint32_t> key;
    for (auto *c : cs) key.push_back(c->id);
    std::sort(key.begin(), key.end());
    auto it = cache.find(key);
    if (it != cache.end()) {
      SHADD(cacheHits, 1);
      model = it->second.model;
      return it->second.res;
    }
    for (auto *c : cs) tr(c);
    if (litCount > 4000 || usesFP != fp) newSolver();
    double t0 = now();
    vector<Z3_ast> as;
    for (auto *c : cs) as.push_back(lit(c));
    static const char *dump = getenv("SYMX_DUMP");  // last query of each worker
    if (dump) {
      Z3_solver d = Z3_mk_solver(ctx);
      Z3_solver_inc_ref(ctx, d);
      for (auto *c : cs) Z3_solver_assert(ctx, d, tr(c));
      if (FILE *f = fopen((string(dump) + "." + std::to_string(getpid())).c_str(), "w")) {
        fprintf(f, "%s(check-sat)\n; %s\n", Z3_solver_to_string(ctx, d), where().c_str());
        fclose(f);
      }
      Z3_solver_dec_ref(ctx, d);
    }
    Z3_lbool r = Z3_solver_check_assumptions(ctx, s, as.size(), as.data());
    SHADD(solverUs, (now() - t0) * 1e6);
    static bool slow = getenv("SYMX_FORKS");
    if (slow && now() - t0 > 0.3) fprintf(stderr, "slow %.1f n=%zu %s\n", now() - t0, cs.size(), where().c_str());
    SHADD(queries, 1);
    CacheEntry ce;
    ce.res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (ce.res == 1) {
      SHADD(queriesSat, 1);
      Z3_model m = Z3_solver_get_model(ctx, s);
      Z3_model_inc_ref(ctx, m);
      std::set<uint32_t> syms;
      for (auto *c : cs) syms.insert(c->syms->begin(), c->syms->end());
      vector<uint64_t> full(P.syms.size(), 0);
      for (uint32_t sy : syms) {
        Z3_ast v = nullptr;
        uint64_t val = 0;
        if (Z3_model_eval(ctx, m, tr(P.symExpr[sy]), true, &v) && v) {
          if (P.syms[sy].w == 1) val = Z3_get_bool_value(ctx, v) == Z3_L_TRUE;
          else Z3_get_numeral_uint64(ctx, v, &val);
        }
        ce.model.push_back({sy, val});
        full[sy] = val;
      }
      Z3_model_dec_ref(ctx, m);
      for (auto *c : cs)
        if (!P.eval(c, full)) { fprintf(stderr, "symx: solver model fails evaluation (encoding bug)\n"); abort(); }
    } else if (ce.res == 0) SHADD(queriesUnsat, 1);
    else { SHADD(unknown, 1); sh->incomplete = 1; }
    model = ce.model;
    if (ce.res >= 0) cache[key] = std::move(ce);
    return ce.res;
  }
};
static Solver S;

// ---------------------------------------------------------------- values and memory
struct Val { uint64_t c = 0; Expr *e = nullptr; };
static inline Val V(uint64_t c) { return Val{c, nullptr}; }
static inline Val VE(Expr *e) { return e->k == K_CONST ? Val{e->c, nullptr} : Val{0, e}; }
static inline Expr *X(Val v, unsigned w) {
  if (v.e) {
    if (v.e->w != w) { fprintf(stderr, "symx: width mismatch %u vs %u\n", v.e->w, w); abort(); }
    return v.e;
  }
  return P.con(v.c, w);
}

enum { OF_HEAP = 1, OF_STACK = 2, OF_GLOBAL = 4, OF_CONST = 8, OF_PROG = 16, OF_PROGHEAP = 32 };
struct Obj {
  int refs = 1;
  uint32_t size = 0;     // backing size
  uint16_t flags = 0, owner = 0;
  uint8_t *data = nullptr;
  Expr **sym = nullptr;  // per byte, null = concrete
  Expr *symSize = nullptr;
  const char *name = nullptr;
};
static Obj *newObj(uint32_t size, unsigned flags, uint8_t fill) {
  Obj *o = new Obj;
  o->size = size; o->flags = flags;
  o->data = (uint8_t *)malloc(size ? size : 1);
  memset(o->data, fill, size);
  return o;
}
static void objUnref(Obj *o) {
  if (--o->refs == 0) { free(o->data); free(o->sym); delete o; }
}
static Obj *objClone(Obj *o) {
  Obj *n = new Obj(*o);
  n->refs = 1;
  n->data = (uint8_t *)malloc(o->size ? o->size : 1);
  memcpy(n->data, o->data, o->size);
  if (o->sym) { n->sym = (Expr **)malloc(o->size * sizeof(Expr *)); memcpy(n->sym, o->sym, o->size * sizeof(Expr *)); }
  return n;
}
static const unsigned CHB = 8, CHN = 1 << CHB;
struct Chunk { int refs = 1; int live = 0; Obj *o[CHN] = {}; };
static void chunkUnref(Chunk *c) {
  if (c && --c->refs == 0) { for (auto *o : c->o) if (o) objUnref(o); delete c; }
}
static const uint64_t OFF0 = 0x10000;
static inline uint64_t mkAddr(uint32_t id, uint64_t off = 0) { return ((uint64_t)id << 32) + OFF0 + off; }

struct Func;
struct Frame {
  Func *f = nullptr;
  uint32_t pc = 0;
  vector<Val> regs;
  vector<uint32_t> allocas;
  int32_t retDst = -1;   // slot in the caller
  bool isTry = false;
  uint32_t varargs = 0;  // object id
};
typedef std::shared_ptr<Frame> FrameP;

struct Coro {
  vector<FrameP> frames;
  vector<Obj *> globals;  // saved program globals while switched out
  bool done = false, started = false;
};

struct State {
  vector<Chunk *> tab;
  uint32_t nextId = 1;
  vector<FrameP> frames;
  vector<Expr *> cons;
  Model model;
  vector<std::pair<string, Val>> obs;
  std::shared_ptr<vector<uint32_t>> symOrder;  // symbols in creation order
  std::map<string, unsigned> symCount;
  vector<std::shared_ptr<Coro>> coros;
  unsigned cur = 0;
  uint64_t instrs = 0;
  unsigned depth = 0;

  State() {}
  State(const State &o) : tab(o.tab), nextId(o.nextId), frames(o.frames), cons(o.cons), model(o.model), obs(o.obs),
                          symOrder(o.symOrder), symCount(o.symCount), cur(o.cur), instrs(o.instrs), depth(o.depth + 1) {
    for (auto *c : tab) if (c) c->refs++;
    for (auto &c : o.coros) {
      auto n = std::make_shared<Coro>(*c);
      for (auto *g : n->globals) g->refs++;
      coros.push_back(n);
    }
  }
  ~State() {
    for (auto *c : tab) chunkUnref(c);
    for (auto &c : coros) for (auto *g : c->globals) objUnref(g);
  }
  Obj *get(uint32_t id) const {
    uint32_t ci = id >> CHB;
    if (ci >= tab.size() || !tab[ci]) return nullptr;
    return tab[ci]->o[id & (CHN - 1)];
  }
  Chunk *chunkW(uint32_t ci) {
    if (ci >= tab.size()) tab.resize(ci + 1, nullptr);
    Chunk *&c = tab[ci];
    if (!c) return c = new Chunk;
    if (c->refs > 1) {
      Chunk *n = new Chunk;
      n->live = c->live;
      for (unsigned i = 0; i < CHN; i++) if ((n->o[i] = c->o[i])) n->o[i]->refs++;
      c->refs--;
      c = n;
    }
    return c;
  }
  Obj *getW(uint32_t id) {
    uint32_t ci = id >> CHB;
    if (ci >= tab.size() || !tab[ci]) return nullptr;
    Chunk *c = tab[ci];
    if (c->refs > 1) c = chunkW(ci);
    Obj *&o = c->o[id & (CHN - 1)];
    if (o && o->refs > 1) { Obj *n = objClone(o); o->refs--; o = n; }
    return o;
  }
  void put(uint32_t id, Obj *o) {  // takes the reference
    Chunk *c = chunkW(id >> CHB);
    Obj *&s = c->o[id & (CHN - 1)];
    if (s) objUnref(s); else c->live++;
    s = o;
  }
  uint32_t add(Obj *o) { uint32_t id = nextId++; put(id, o); return id; }
  void del(uint32_t id) {
    Chunk *c = chunkW(id >> CHB);
    Obj *&s = c->o[id & (CHN - 1)];
    if (s) {
      objUnref(s); s = nullptr;
      if (--c->live == 0 && (nextId >> CHB) > (id >> CHB)) { chunkUnref(c); tab[id >> CHB] = nullptr; }
    }
  }
  Frame &top() {
    FrameP &f = frames.back();
    if (f.use_count() > 1) f = std::make_shared<Frame>(*f);
    return *f;
  }
};

// ---------------------------------------------------------------- decoded program
enum Op : uint16_t {
  OP_ALLOCA, OP_LOAD, OP_STORE, OP_GEP, OP_BR, OP_CONDBR, OP_SWITCH, OP_RET, OP_CALL, OP_SELECT, OP_BIN, OP_CMP, OP_TRUNC, OP_ZEXT,
  OP_SEXT, OP_COPY, OP_FBIN, OP_FCMP, OP_FCVT, OP_FNEG, OP_UNREACHABLE, OP_INTRIN, OP_UNSUP,
};
enum Intr { I_MEMCPY, I_MEMSET, I_VASTART, I_VACOPY, I_NOP, I_OVF, I_MINMAX, I_ABS, I_BSWAP, I_SAT, I_OBJSIZE, I_CTPOP, I_CTLZ, I_CTTZ, I_FABS, I_FMA, I_TRAP, I_FSH };

struct Edge { uint32_t target; uint32_t block; vector<std::pair<int32_t, int32_t>> moves; };
struct CallInfo {
  llvm::Function *callee = nullptr;
  Func *f = nullptr;
  int builtin = -1;
  int32_t fn = 0;                  // operand for indirect calls
  vector<int32_t> args;            // flattened
  vector<unsigned> widths;         // of flattened args
  vector<uint64_t> byval;          // size, per flattened arg (0: none)
  unsigned retSlots = 0, retWidth = 0;
  string name;
};
struct Inst {
  Op op; uint8_t w = 0, w2 = 0;
  int32_t dst = -1, a = 0, b = 0, c = 0;
  uint64_t imm = 0;
  uint16_t sub = 0, n = 1;
  void *p = nullptr;
  const llvm::Instruction *I = nullptr;
};
struct MemTy { vector<std::pair<uint64_t, unsigned>> f; };  // offset, width
struct GepInfo { vector<std::tuple<int32_t, unsigned, int64_t>> idx; };
struct SwitchInfo { vector<std::pair<uint64_t, Edge>> cases; Edge def; };
struct Func {
  llvm::Function *F = nullptr;
  string name;
  unsigned idx = 0;
  vector<Inst> code;
  unsigned nslots = 0;
  vector<unsigned> argWidths;  // flattened
  bool decoded = false, prog = false;
  unsigned nblocks = 0, blockBase = 0;
  uint32_t entryBlock = 0;
};

static llvm::LLVMContext Ctx;
static std::unique_ptr<llvm::Module> M;
static const llvm::DataLayout *DL;
static std::unordered_map<const llvm::Function *, Func *> funcs;
static vector<Func *> funcList;
static std::unordered_map<uint32_t, llvm::Function *> funcById;
static std::unordered_map<const llvm::Value *, uint64_t> globalAddr;
static vector<Val> constPool;
static std::unordered_map<uint64_t, int32_t> constIdx;
static vector<uint32_t> progGlobals;
static vector<Obj *> progGlobalInit;
static State *initState;
static unsigned totalBlocks = 0;

[[noreturn]] static void fatal(const string &m) {
  fprintf(stderr, "symx: %s\n", m.c_str());
  if (sh) {
    shLock();
    sh->errors++; sh->incomplete = 1;
    if (!sh->firstError[0]) snprintf(sh->firstError, sizeof sh->firstError, "%s", m.c_str());
    shUnlock();
  }
  _exit(3);
}
static string show(const llvm::Value *v) { string s; llvm::raw_string_ostream o(s); v->print(o); return s; }

static void flatten(llvm::Type *T, uint64_t off, vector<std::pair<uint64_t, unsigned>> &out) {
  if (T->isIntegerTy()) {
    if (T->getIntegerBitWidth() > 64) { out.push_back({off, 999}); return; }
    out.push_back({off, T->getIntegerBitWidth()});
  } else if (T->isPointerTy()) out.push_back({off, 64});
  else if (T->isDoubleTy()) out.push_back({off, 64});
  else if (T->isFloatTy()) out.push_back({off, 32});
  else if (auto *ST = llvm::dyn_cast<llvm::StructType>(T)) {
    auto *SL = DL->getStructLayout(ST);
    for (unsigned i = 0; i < ST->getNumElements(); i++) flatten(ST->getElementType(i), off + SL->getElementOffset(i), out);
  } else if (auto *AT = llvm::dyn_cast<llvm::ArrayType>(T)) {
    uint64_t es = DL->getTypeAllocSize(AT->getElementType());
    for (uint64_t i = 0; i < AT->getNumElements(); i++) flatten(AT->getElementType(), off + i * es, out);
  } else if (T->isVoidTy()) {
  } else out.push_back({off, 999});
}
static MemTy memTy(llvm::Type *T) { MemTy m; flatten(T, 0, m.f); return m; }
static unsigned nslots(llvm::Type *T) { return memTy(T).f.size(); }

static void constFlat(const llvm::Constant *C, vector<Val> &out);
static uint64_t constAddr(const llvm::Constant *C) {
  vector<Val> v; constFlat(C, v);
  return v.at(0).c;
}
static void constFlat(const llvm::Constant *C, vector<Val> &out) {
  using namespace llvm;
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    if (CI->getBitWidth() > 64) { out.push_back(V(CI->getValue().trunc(64).getZExtValue())); return; }
    out.push_back(V(CI->getZExtValue())); return;
  }
  if (auto *CF = dyn_cast<ConstantFP>(C)) { out.push_back(V(CF->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
  if (isa<ConstantPointerNull>(C)) { out.push_back(V(0)); return; }
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
    for (unsigned i = 0, n = nslots(C->getType()); i < n; i++) out.push_back(V(0));
    return;
  }
  if (auto *G = dyn_cast<GlobalValue>(C)) {
    if (auto *A = dyn_cast<GlobalAlias>(G)) { constFlat(A->getAliasee(), out); return; }
    auto it = globalAddr.find(G);
    if (it == globalAddr.end()) fatal("no address for " + G->getName().str());
    out.push_back(V(it->second)); return;
  }
  if (auto *CA = dyn_cast<ConstantDataSequential>(C)) {
    for (unsigned i = 0; i < CA->getNumElements(); i++) constFlat(CA->getElementAsConstant(i), out);
    return;
  }
  if (isa<ConstantAggregate>(C)) {
    for (unsigned i = 0; i < C->getNumOperands(); i++) constFlat(cast<Constant>(C->getOperand(i)), out);
    return;
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    switch (CE->getOpcode()) {
    case Instruction::GetElementPtr: {
      uint64_t b = constAddr(CE->getOperand(0));
      APInt off(64, 0);
      if (!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) fatal("constant gep " + show(CE));
      out.push_back(V(b + off.getZExtValue())); return;
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
      uint64_t v = constAddr(CE->getOperand(0));
      if (CE->getType()->isIntegerTy()) v &= maskw(CE->getType()->getIntegerBitWidth());
      out.push_back(V(v)); return;
    }
    case Instruction::Add: out.push_back(V(constAddr(CE->getOperand(0)) + constAddr(CE->getOperand(1)))); return;
    case Instruction::Sub: out.push_back(V(constAddr(CE->getOperand(0)) - constAddr(CE->getOperand(1)))); return;
    case Instruction::Trunc: out.push_back(V(constAddr(CE->getOperand(0)) & maskw(CE->getType()->getIntegerBitWidth()))); return;
    case Instruction::ICmp: {
      uint64_t a = constAddr(CE->getOperand(0)), b = constAddr(CE->getOperand(1));
      switch (CE->getPredicate()) {
      case CmpInst::ICMP_EQ: out.push_back(V(a == b)); return;
      case CmpInst::ICMP_NE: out.push_back(V(a != b)); return;
      default: break;
      }
    }
    }
  }
  fatal("unsupported constant " + show(C));
}
static int32_t constOp(uint64_t v) {
  auto it = constIdx.find(v);
  if (it != constIdx.end()) return it->second;
  constPool.push_back(V(v));
  return constIdx[v] = -(int32_t)constPool.size();
}
static void initGlobalBytes(Obj *o, const llvm::Constant *C, uint64_t off) {
  using namespace llvm;
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) return;
  if (auto *CS = dyn_cast<ConstantStruct>(C)) {
    auto *SL = DL->getStructLayout(CS->getType());
    for (unsigned i = 0; i < CS->getNumOperands(); i++) initGlobalBytes(o, CS->getOperand(i), off + SL->getElementOffset(i));
    return;
  }
  if (auto *CA = dyn_cast<ConstantArray>(C)) {
    uint64_t es = DL->getTypeAllocSize(CA->getType()->getElementType());
    for (unsigned i = 0; i < CA->getNumOperands(); i++) initGlobalBytes(o, CA->getOperand(i), off + i * es);
    return;
  }
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
    StringRef r = CD->getRawDataValues();
    memcpy(o->data + off, r.data(), r.size());
    return;
  }
  uint64_t v = constAddr(C);
  memcpy(o->data + off, &v, DL->getTypeStoreSize(C->getType()));
}

#include "builtins.inc"

static std::unordered_map<string, int> builtinByName;

static void decode(Func *fn) {
  using namespace llvm;
  Function &F = *fn->F;
  fn->decoded = true;
  std::unordered_map<const Value *, int32_t> slot;
  unsigned ns = 0;
  for (auto &A : F.args()) {
    slot[&A] = ns;
    for (auto &f : memTy(A.getType()).f) { fn->argWidths.push_back(f.second); ns++; }
  }
  for (auto &I : instructions(F)) {
    unsigned n = nslots(I.getType());
    if (n) { slot[&I] = ns; ns += n; }
  }
  auto opnds = [&](const Value *v, vector<int32_t> &out) {
    unsigned n = nslots(v->getType());
    if (auto *C = dyn_cast<Constant>(v)) {
      vector<Val> vs; constFlat(C, vs);
      for (auto &x : vs) out.push_back(constOp(x.c));
    } else if (isa<MetadataAsValue>(v)) {
    } else {
      int32_t s = slot.at(v);
      for (unsigned i = 0; i < n; i++) out.push_back(s + i);
    }
  };
  auto opnd = [&](const Value *v) { vector<int32_t> o; opnds(v, o); return o.at(0); };
  auto width = [&](Type *T) -> unsigned { auto m = memTy(T); return m.f.size() == 1 ? m.f[0].second : 0; };
  std::unordered_map<const BasicBlock *, uint32_t> start;
  std::unordered_map<const BasicBlock *, uint32_t> bidx;
  vector<std::pair<Edge *, const BasicBlock *>> fix;
  unsigned bn = 0;
  for (auto &B : F) bidx[&B] = fn->blockBase + bn++;
  auto mkEdge = [&](Edge *e, const BasicBlock *from, const BasicBlock *to) {
    for (auto &ph : to->phis()) {
      vector<int32_t> src; opnds(ph.getIncomingValueForBlock(from), src);
      int32_t d = slot.at(&ph);
      for (unsigned i = 0; i < src.size(); i++) e->moves.push_back({d + (int)i, src[i]});
    }
    e->block = bidx[to];
    fix.push_back({e, to});
  };
  for (auto &B : F) {
    start[&B] = fn->code.size();
    for (auto &I : B) {
      if (isa<PHINode>(I)) continue;
      Inst in{};
      in.I = &I;
      in.dst = slot.count(&I) ? slot[&I] : -1;
      in.op = OP_UNSUP;
      bool bad = false;
      for (auto &f : memTy(I.getType()).f) if (f.second == 999) bad = true;
      for (auto &o : I.operands())
        if (!isa<BasicBlock>(o) && !isa<MetadataAsValue>(o)) for (auto &f : memTy(o->getType()).f) if (f.second == 999) bad = true;
      if (bad) { fn->code.push_back(in); continue; }
      switch (I.getOpcode()) {
      case Instruction::Alloca: {
        auto &A = cast<AllocaInst>(I);
        in.op = OP_ALLOCA; in.imm = DL->getTypeAllocSize(A.getAllocatedType()); in.a = opnd(A.getArraySize()); break;
      }
      case Instruction::Load: {
        in.op = OP_LOAD; in.a = opnd(I.getOperand(0));
        auto m = memTy(I.getType());
        in.n = m.f.size(); in.w = in.n ? m.f[0].second : 0;
        if (in.n > 1) in.p = new MemTy(m);
        if (in.n == 0) in.op = OP_BR, in.op = OP_INTRIN, in.sub = I_NOP;
        break;
      }
      case Instruction::Store: {
        in.op = OP_STORE; in.a = opnd(I.getOperand(1));
        auto m = memTy(I.getOperand(0)->getType());
        in.n = m.f.size(); in.w = in.n ? m.f[0].second : 0;
        auto *vals = new vector<int32_t>; opnds(I.getOperand(0), *vals);
        if (in.n == 0) { in.op = OP_INTRIN; in.sub = I_NOP; break; }
        in.b = (*vals)[0];
        if (in.n > 1) { in.p = new std::pair<MemTy, vector<int32_t>>(m, *vals); }
        delete vals;
        break;
      }
      case Instruction::GetElementPtr: {
        in.op = OP_GEP; in.a = opnd(I.getOperand(0));
        auto *gi = new GepInfo;
        int64_t off = 0;
        for (auto it = gep_type_begin(&I), e = gep_type_end(&I); it != e; ++it) {
          Value *ix = it.getOperand();
          if (StructType *ST = it.getStructTypeOrNull()) off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else {
            int64_t es = DL->getTypeAllocSize(it.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * es;
            else gi->idx.push_back({opnd(ix), (unsigned)ix->getType()->getIntegerBitWidth(), es});
          }
        }
        in.imm = off; in.p = gi; break;
      }
      case Instruction::Br: {
        auto &Bi = cast<BranchInst>(I);
        if (Bi.isConditional()) {
          in.op = OP_CONDBR; in.a = opnd(Bi.getCondition());
          auto *e = new Edge[2];
          mkEdge(&e[0], &B, Bi.getSuccessor(0)); mkEdge(&e[1], &B, Bi.getSuccessor(1));
          in.p = e;
        } else { in.op = OP_BR; auto *e = new Edge; mkEdge(e, &B, Bi.getSuccessor(0)); in.p = e; }
        break;
      }
      case Instruction::Switch: {
        auto &Sw = cast<SwitchInst>(I);
        in.op = OP_SWITCH; in.a = opnd(Sw.getCondition()); in.w = Sw.getCondition()->getType()->getIntegerBitWidth();
        auto *si = new SwitchInfo;
        si->cases.resize(Sw.getNumCases());
        unsigned i = 0;
        for (auto &c : Sw.cases()) { si->cases[i].first = c.getCaseValue()->getZExtValue(); mkEdge(&si->cases[i].second, &B, c.getCaseSuccessor()); i++; }
        mkEdge(&si->def, &B, Sw.getDefaultDest());
        in.p = si; break;
      }
      case Instruction::Ret: {
        in.op = OP_RET;
        auto *v = new vector<int32_t>;
        if (I.getNumOperands()) opnds(I.getOperand(0), *v);
        in.p = v; break;
      }
      case Instruction::Unreachable: in.op = OP_UNREACHABLE; break;
      case Instruction::Select: {
        in.op = OP_SELECT; in.a = opnd(I.getOperand(0));
        in.n = nslots(I.getType()); in.w = width(I.getType());
        auto *v = new std::pair<vector<int32_t>, vector<int32_t>>;
        opnds(I.getOperand(1), v->first); opnds(I.getOperand(2), v->second);
        if (in.n > 1) { auto *ws = new vector<unsigned>; for (auto &f : memTy(I.getType()).f) ws->push_back(f.second); in.imm = (uint64_t)ws; }
        in.p = v; break;
      }
      case Instruction::ICmp: {
        in.op = OP_CMP; in.a = opnd(I.getOperand(0)); in.b = opnd(I.getOperand(1)); in.w = width(I.getOperand(0)->getType());
        switch (cast<ICmpInst>(I).getPredicate()) {
        case CmpInst::ICMP_EQ: in.sub = K_EQ; in.n = 0; break;
        case CmpInst::ICMP_NE: in.sub = K_EQ; in.n = 1; break;
        case CmpInst::ICMP_ULT: in.sub = K_ULT; in.n = 0; break;
        case CmpInst::ICMP_ULE: in.sub = K_ULE; in.n = 0; break;
        case CmpInst::ICMP_UGT: in.sub = K_ULE; in.n = 1; break;
        case CmpInst::ICMP_UGE: in.sub = K_ULT; in.n = 1; break;
        case CmpInst::ICMP_SLT: in.sub = K_SLT; in.n = 0; break;
        case CmpInst::ICMP_SLE: in.sub = K_SLE; in.n = 0; break;
        case CmpInst::ICMP_SGT: in.sub = K_SLE; in.n = 1; break;
        case CmpInst::ICMP_SGE: in.sub = K_SLT; in.n = 1; break;
        default: in.op = OP_UNSUP;
        }
        break;
      }
#define BIN(o, k) case Instruction::o: in.op = OP_BIN; in.sub = k; in.a = opnd(I.getOperand(0)); in.b = opnd(I.getOperand(1)); in.w = width(I.getType()); break;
      BIN(Add, K_ADD) BIN(Sub, K_SUB) BIN(Mul, K_MUL) BIN(UDiv, K_UDIV) BIN(SDiv, K_SDIV) BIN(URem, K_UREM) BIN(SRem, K_SREM)
      BIN(And, K_AND) BIN(Or, K_OR) BIN(Xor, K_XOR) BIN(Shl, K_SHL) BIN(LShr, K_LSHR) BIN(AShr, K_ASHR)
#define CAST(o, k) case Instruction::o: in.op = k; in.a = opnd(I.getOperand(0)); in.w = width(I.getType()); in.w2 = width(I.getOperand(0)->getType()); break;
      CAST(Trunc, OP_TRUNC) CAST(ZExt, OP_ZEXT) CAST(SExt, OP_SEXT)
      case Instruction::PtrToInt: case Instruction::IntToPtr: {
        in.a = opnd(I.getOperand(0)); in.w = width(I.getType()); in.w2 = width(I.getOperand(0)->getType());
        in.op = in.w == in.w2 ? OP_COPY : in.w < in.w2 ? OP_TRUNC : OP_ZEXT; break;
      }
      case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
        in.op = OP_COPY; in.n = nslots(I.getType());
        auto *v = new vector<int32_t>; opnds(I.getOperand(0), *v);
        in.a = (*v)[0];
        if (in.n > 1) in.p = v; else delete v;
        break;
      }
      case Instruction::ExtractValue: {
        auto &E = cast<ExtractValueInst>(I);
        vector<int32_t> src; opnds(E.getAggregateOperand(), src);
        Type *T = E.getAggregateOperand()->getType(); unsigned o = 0;
        for (unsigned ix : E.indices()) {
          for (unsigned i = 0; i < ix; i++) o += nslots(isa<StructType>(T) ? T->getStructElementType(i) : T->getArrayElementType());
          T = isa<StructType>(T) ? T->getStructElementType(ix) : T->getArrayElementType();
        }
        in.op = OP_COPY; in.n = nslots(I.getType());
        auto *v = new vector<int32_t>(src.begin() + o, src.begin() + o + in.n);
        in.a = in.n ? (*v)[0] : 0;
        if (in.n > 1) in.p = v; else delete v;
        break;
      }
      case Instruction::InsertValue: {
        auto &E = cast<InsertValueInst>(I);
        vector<int32_t> src, ins; opnds(E.getAggregateOperand(), src); opnds(E.getInsertedValueOperand(), ins);
        Type *T = E.getAggregateOperand()->getType(); unsigned o = 0;
        for (unsigned ix : E.indices()) {
          for (unsigned i = 0; i < ix; i++) o += nslots(isa<StructType>(T) ? T->getStructElementType(i) : T->getArrayElementType());
          T = isa<StructType>(T) ? T->getStructElementType(ix) : T->getArrayElementType();
        }
        for (unsigned i = 0; i < ins.size(); i++) src[o + i] = ins[i];
        in.op = OP_COPY; in.n = src.size(); in.a = src[0];
        if (in.n > 1) in.p = new vector<int32_t>(src);
        break;
      }
#define FB(o, ch) case Instruction::o: in.op = OP_FBIN; in.sub = ch; in.a = opnd(I.getOperand(0)); in.b = opnd(I.getOperand(1)); in.w = width(I.getType()); break;
      FB(FAdd, '+') FB(FSub, '-') FB(FMul, '*') FB(FDiv, '/') FB(FRem, '%')
      case Instruction::FNeg: in.op = OP_FNEG; in.a = opnd(I.getOperand(0)); in.w = width(I.getType()); break;
      case Instruction::FCmp: in.op = OP_FCMP; in.sub = cast<FCmpInst>(I).getPredicate(); in.a = opnd(I.getOperand(0)); in.b = opnd(I.getOperand(1)); in.w = width(I.getOperand(0)->getType()); break;
      case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc:
        in.op = OP_FCVT; in.sub = I.getOpcode(); in.a = opnd(I.getOperand(0)); in.w = width(I.getType()); in.w2 = width(I.getOperand(0)->getType()); break;
      case Instruction::Call: {
        auto &C = cast<CallInst>(I);
        Function *callee = C.getCalledFunction();
        if (callee && callee->isIntrinsic()) {
          in.op = OP_INTRIN;
          auto *v = new vector<int32_t>;
          for (auto &a : C.args()) if (!isa<MetadataAsValue>(a)) opnds(a, *v);
          in.p = v; in.w = width(I.getType());
          in.w2 = C.arg_size() && !isa<MetadataAsValue>(C.getArgOperand(0)) ? width(C.getArgOperand(0)->getType()) : 0;
          in.n = nslots(I.getType());
          switch (callee->getIntrinsicID()) {
          case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: in.sub = I_MEMCPY; break;
          case Intrinsic::memset: in.sub = I_MEMSET; break;
          case Intrinsic::vastart: in.sub = I_VASTART; break;
          case Intrinsic::vacopy: in.sub = I_VACOPY; break;
          case Intrinsic::vaend: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
          case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl:
          case Intrinsic::prefetch: case Intrinsic::stackrestore: in.sub = I_NOP; break;
          case Intrinsic::stacksave: in.op = OP_COPY; in.a = constOp(0); in.p = nullptr; in.n = 1; break;
          case Intrinsic::expect: case Intrinsic::expect_with_probability: in.op = OP_COPY; in.a = (*v)[0]; in.p = nullptr; in.n = 1; break;
          case Intrinsic::is_constant: in.op = OP_COPY; in.a = constOp(0); in.p = nullptr; in.n = 1; break;
          case Intrinsic::objectsize: in.op = OP_COPY; in.a = constOp(~0ull); in.p = nullptr; in.n = 1; break;
          case Intrinsic::umul_with_overflow: in.sub = I_OVF; in.imm = 0; break;
          case Intrinsic::uadd_with_overflow: in.sub = I_OVF; in.imm = 1; break;
          case Intrinsic::usub_with_overflow: in.sub = I_OVF; in.imm = 2; break;
          case Intrinsic::smul_with_overflow: in.sub = I_OVF; in.imm = 3; break;
          case Intrinsic::sadd_with_overflow: in.sub = I_OVF; in.imm = 4; break;
          case Intrinsic::ssub_with_overflow: in.sub = I_OVF; in.imm = 5; break;
          case Intrinsic::umin: in.sub = I_MINMAX; in.imm = 0; break;
          case Intrinsic::umax: in.sub = I_MINMAX; in.imm = 1; break;
          case Intrinsic::smin: in.sub = I_MINMAX; in.imm = 2; break;
          case Intrinsic::smax: in.sub = I_MINMAX; in.imm = 3; break;
          case Intrinsic::abs: in.sub = I_ABS; break;
          case Intrinsic::bswap: in.sub = I_BSWAP; break;
          case Intrinsic::uadd_sat: in.sub = I_SAT; in.imm = 0; break;
          case Intrinsic::usub_sat: in.sub = I_SAT; in.imm = 1; break;
          case Intrinsic::ctpop: in.sub = I_CTPOP; break;
          case Intrinsic::ctlz: in.sub = I_CTLZ; break;
          case Intrinsic::cttz: in.sub = I_CTTZ; break;
          case Intrinsic::fabs: in.sub = I_FABS; break;
          case Intrinsic::fmuladd: case Intrinsic::fma: in.sub = I_FMA; break;
          case Intrinsic::fshl: in.sub = I_FSH; in.imm = 0; break;
          case Intrinsic::fshr: in.sub = I_FSH; in.imm = 1; break;
          case Intrinsic::trap: case Intrinsic::ubsantrap: in.sub = I_TRAP; break;
          default: in.op = OP_UNSUP;
          }
          break;
        }
        in.op = OP_CALL;
        auto *ci = new CallInfo;
        if (!callee) {
          if (auto *c = dyn_cast<Constant>(C.getCalledOperand()))
            if (auto *f = dyn_cast<Function>(c->stripPointerCasts())) callee = f;
        }
        ci->callee = callee;
        if (callee) {
          ci->name = callee->getName().str();
          if (callee->isDeclaration()) {
            auto it = builtinByName.find(ci->name);
            if (it != builtinByName.end()) ci->builtin = it->second;
          } else ci->f = funcs.at(callee);
        } else ci->fn = opnd(C.getCalledOperand());
        for (unsigned i = 0; i < C.arg_size(); i++) {
          Value *a = C.getArgOperand(i);
          if (isa<MetadataAsValue>(a)) continue;
          vector<int32_t> o; opnds(a, o);
          auto m = memTy(a->getType());
          uint64_t bv = C.isByValArgument(i) ? (uint64_t)DL->getTypeAllocSize(C.getParamByValType(i)) : 0;
          for (unsigned j = 0; j < o.size(); j++) { ci->args.push_back(o[j]); ci->widths.push_back(m.f[j].second); ci->byval.push_back(bv); }
        }
        ci->retSlots = nslots(I.getType());
        ci->retWidth = width(I.getType());
        in.p = ci;
        break;
      }
      default: break;
      }
      fn->code.push_back(in);
    }
  }
  for (auto &f : fix) f.first->target = start.at(f.second);
  fn->nslots = ns;
  fn->entryBlock = fn->blockBase;
}

#include "exec.inc"

static std::unique_ptr<llvm::Module> loadModule(const string &path) {
  llvm::SMDiagnostic err;
  auto m = llvm::parseIRFile(path, err, Ctx);
  if (!m) { err.print("symx", llvm::errs()); fatal("cannot load " + path); }
  return m;
}

int main(int argc, char **argv) {
  vector<string> progFiles, envFiles;
  tStart = now();
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    auto next = [&]() { if (++i >= argc) fatal("missing value for " + a); return string(argv[i]); };
    if (a == "--prog") progFiles.push_back(next());
    else if (a == "--env") envFiles.push_back(next());
    else if (a == "--entry") optEntry = next();
    else if (a == "--out") optOut = next();
    else if (a == "--timeout") optTimeout = atof(next().c_str());
    else if (a == "--jobs") optJobs = atoi(next().c_str());
    else if (a == "--samples") optSamples = atoi(next().c_str());
    else if (a == "--max-instr") optMaxInstr = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--max-enum") optMaxEnum = atoi(next().c_str());
    else if (a == "--known") optKnown.push_back(next());
    else if (a == "--seed") optSeed = atol(next().c_str());
    else if (a == "--no-stop") optStop = false;
    else if (a == "--trace") optTrace = true;
    else fatal("unknown option " + a);
  }
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  mkdir(optOut.c_str(), 0755);

  for (unsigned i = 0; i < sizeof builtinNames / sizeof *builtinNames; i++) builtinByName[builtinNames[i]] = i;

  std::unique_ptr<llvm::Module> prog, env;
  for (auto &f : progFiles) {
    auto m = loadModule(f);
    if (!prog) prog = std::move(m);
    else if (llvm::Linker::linkModules(*prog, std::move(m))) fatal("link " + f);
  }
  for (auto &f : envFiles) {
    auto m = loadModule(f);
    if (!env) env = std::move(m);
    else if (llvm::Linker::linkModules(*env, std::move(m))) fatal("link " + f);
  }
  if (!env) fatal("no --env");
  {  // library functions used by the environment and the harness
    vector<std::pair<llvm::Function *, llvm::Function *>> rep;
    for (auto &f : *env)
      if (f.isDeclaration() && !f.isIntrinsic() && !builtinByName.count(f.getName().str()))
        if (auto *v = env->getFunction("vx_" + f.getName().str()))
          if (!v->isDeclaration()) rep.push_back({&f, v});
    for (auto &r : rep) r.first->replaceAllUsesWith(r.second);
  }
  if (prog) {
    if (auto *f = prog->getFunction("main")) f->setName("nb_main");
    for (auto &g : prog->globals())
      if (!g.isDeclaration()) { if (!g.isConstant()) g.setSection("nbprog"); }
      else {
        string n = g.getName().str();
        g.setName("vx_" + n);
      }
    // Environment functions named ov_X replace the program's function X.
    for (auto &f : *env) {
      if (f.isDeclaration() || !f.getName().starts_with("ov_")) continue;
      string x = f.getName().substr(3).str();
      if (auto *pf = prog->getFunction(x)) {
        auto *decl = llvm::Function::Create(pf->getFunctionType(), llvm::GlobalValue::ExternalLinkage, f.getName(), prog.get());
        decl->copyAttributesFrom(pf);
        pf->replaceAllUsesWith(decl);
        pf->setName("orig_" + x);
        pf->setLinkage(llvm::GlobalValue::ExternalLinkage);
      }
    }
    vector<llvm::Function *> decls;
    for (auto &f : *prog) {
      if (!f.isDeclaration()) { f.setSection("nbprog"); continue; }
      if (f.isIntrinsic()) continue;
      decls.push_back(&f);
    }
    for (auto *f : decls) {
      string n = f->getName().str();
      if (n.rfind("ov_", 0) == 0) continue;
      string v = "vx_" + n;
      auto *ef = env->getFunction(v);
      if ((ef && !ef->isDeclaration()) || !builtinByName.count(n)) f->setName(v);
    }
    if (llvm::Linker::linkModules(*env, std::move(prog))) fatal("link of program and environment");
  }
  M = std::move(env);
  DL = &M->getDataLayout();

  initState = new State;
  // functions get object ids so that their addresses are distinct
  for (auto &f : *M) {
    if (f.isIntrinsic()) continue;
    uint32_t id = initState->nextId++;
    globalAddr[&f] = mkAddr(id);
    funcById[id] = &f;
    if (f.isDeclaration()) continue;
    auto *fn = new Func;
    fn->F = &f; fn->name = f.getName().str(); fn->idx = funcList.size();
    fn->prog = f.getSection() == "nbprog";
    fn->nblocks = f.size(); fn->blockBase = totalBlocks; totalBlocks += fn->nblocks;
    funcs[&f] = fn; funcList.push_back(fn);
  }
  if (funcList.size() > sizeof sh->funcHit || totalBlocks > sizeof sh->blockHit) fatal("program too large");
  vector<std::pair<llvm::GlobalVariable *, uint32_t>> gs;
  for (auto &g : M->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    uint64_t sz = DL->getTypeAllocSize(g.getValueType());
    unsigned fl = OF_GLOBAL;
    if (g.isConstant()) fl |= OF_CONST;
    bool pg = g.getSection() == "nbprog";
    if (pg) fl |= OF_PROG;
    Obj *o = newObj(sz, fl, 0);
    o->name = strdup(g.getName().str().c_str());
    uint32_t id = initState->add(o);
    globalAddr[&g] = mkAddr(id);
    gs.push_back({&g, id});
    if (pg) progGlobals.push_back(id);
  }
  for (auto &[g, id] : gs)
    if (g->hasInitializer()) initGlobalBytes(initState->get(id), g->getInitializer(), 0);
  for (uint32_t id : progGlobals) { Obj *o = initState->get(id); o->refs++; progGlobalInit.push_back(o); }

  auto *ef = M->getFunction(optEntry);
  if (!ef || ef->isDeclaration()) fatal("no entry function " + optEntry);
  int rc = explore(funcs.at(ef));
  return rc;
}
