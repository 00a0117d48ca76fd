// symex: path-forking symbolic execution of LLVM IR with z3.
//
//   symex run <in.bc> [options]        execute main() symbolically, JSON on stdout
//   symex instrument <in.bc> <out.bc>  insert store hooks for native crash replay
//
// Inputs come from vh_sym(bits).  Each branch on a symbolic condition asks the
// solver which sides are feasible; both are followed.  vh_assert(c) asks whether
// path-condition && !c is satisfiable; unsat discharges the obligation on that
// path, sat yields concrete input values.  Every memory access is an obligation
// as well (in bounds of a live object).
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <z3++.h>

#include <chrono>
#include <cstdio>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace llvm;
typedef uint64_t u64;
typedef __int128 i128;

static z3::context* Z;
static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- values

static u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

struct Val {
  unsigned w = 0;  // bits; 0 means aggregate or void
  bool conc = true;
  u64 c = 0;
  std::shared_ptr<z3::expr> e;  // bit-vector of width w, Bool when w == 1
  std::shared_ptr<std::vector<Val>> agg;
  static Val C(u64 c, unsigned w) {
    Val v;
    v.w = w;
    v.c = c & mask(w);
    return v;
  }
};

static z3::expr toz(const Val& v) {
  if (!v.conc) return *v.e;
  if (v.w == 1) return Z->bool_val(v.c != 0);
  return Z->bv_val((uint64_t)v.c, v.w);
}

// Conditions as first written; simplification obscures comparisons of sums.
static bool keepRaw = false;
static std::unordered_map<unsigned, z3::expr> rawForm;

static z3::expr simp(const z3::expr& e) {
  z3::expr r = e.simplify();
  if (keepRaw && e.is_bool()) {
    unsigned id = Z3_get_ast_id(*Z, r);
    if (id != Z3_get_ast_id(*Z, e) && !rawForm.count(id)) {
      static std::vector<z3::expr> pin;
      pin.push_back(r);
      rawForm.emplace(id, e);
    }
  }
  return r;
}

static Val fromz(z3::expr e, unsigned w) {
  e = simp(e);
  Val v;
  v.w = w;
  if (w == 1) {
    if (e.is_true() || e.is_false()) {
      v.c = e.is_true();
      return v;
    }
  } else if (e.is_numeral() && w <= 64) {
    v.c = e.get_numeral_uint64();
    return v;
  }
  v.conc = false;
  v.e = std::make_shared<z3::expr>(e);
  return v;
}

static z3::expr asbv(const Val& v) {  // Bool -> BV1
  if (v.w == 1) return z3::ite(toz(v), Z->bv_val(1, 1), Z->bv_val(0, 1));
  return toz(v);
}

static Val vnot(const Val& a) { return a.conc ? Val::C(!a.c, 1) : fromz(!*a.e, 1); }
static Val vand(const Val& a, const Val& b) {
  if (a.conc) return a.c ? b : a;
  if (b.conc) return b.c ? a : b;
  return fromz(*a.e && *b.e, 1);
}
static Val vadd(const Val& a, const Val& b) {
  if (a.conc && b.conc) return Val::C(a.c + b.c, a.w);
  if (a.conc && !a.c) return b;
  if (b.conc && !b.c) return a;
  return fromz(toz(a) + toz(b), a.w);
}
static Val vsub(const Val& a, const Val& b) {
  if (a.conc && b.conc) return Val::C(a.c - b.c, a.w);
  if (b.conc && !b.c) return a;
  return fromz(toz(a) - toz(b), a.w);
}
static Val veq(const Val& a, const Val& b) {
  if (a.conc && b.conc) return Val::C(a.c == b.c, 1);
  return fromz(toz(a) == toz(b), 1);
}
static Val vule(const Val& a, const Val& b) {
  if (a.conc && b.conc) return Val::C(a.c <= b.c, 1);
  return fromz(z3::ule(toz(a), toz(b)), 1);
}
static Val vuge(const Val& a, const Val& b) { return vule(b, a); }
static Val vite(const Val& c, const Val& a, const Val& b) {
  if (c.conc) return c.c ? a : b;
  if (a.conc && b.conc && a.c == b.c) return a;
  return fromz(z3::ite(*c.e, toz(a), toz(b)), a.w);
}
static Val vextract(const Val& v, unsigned lo, unsigned w) {
  if (lo == 0 && w == v.w) return v;
  if (v.conc) return Val::C(v.c >> lo, w);
  z3::expr x = asbv(v).extract(lo + w - 1, lo);
  if (w == 1) return fromz(x == Z->bv_val(1, 1), 1);
  return fromz(x, w);
}
static Val vzext(const Val& v, unsigned w) {
  if (v.w == w) return v;
  if (v.conc && w <= 64) return Val::C(v.c, w);
  return fromz(z3::zext(asbv(v), w - v.w), w);
}

// ---------------------------------------------------------------- memory

struct Cell {  // one byte
  std::shared_ptr<Val> v;  // null: concrete byte c
  uint8_t idx = 0, c = 0;
};

struct Block {  // log entry of a big object
  Val off;
  std::vector<Cell> cells;
};

struct Obj {
  u64 base = 0;
  Val size;  // 64-bit, may be symbolic for big objects
  u64 span = 0;
  bool big = false, freed = false, shared = false, ro = false, heap = false;
  std::vector<Cell> bytes;           // small objects, or the first `bytes.size()` of a big one
  std::vector<Block> log;            // big: newest last
  std::vector<Block> init;           // big: initial contents named by reads
  std::vector<Cell> low0;            // big: initial contents of `bytes`
  std::string name;
};

struct Frame {
  Function* f = nullptr;
  BasicBlock* bb = nullptr;
  BasicBlock* prev = nullptr;
  BasicBlock::iterator it;
  std::vector<Val> regs;
  std::vector<u64> allocas;
  CallBase* call = nullptr;  // in the caller
  int crash = 0;             // 1: boundary pushed by vh_crash_run
  int atexit = 0;
};

struct State {
  std::vector<Frame> stack;
  std::map<u64, std::shared_ptr<Obj>> objs;
  std::vector<z3::expr> pc;
  std::shared_ptr<z3::model> model;
  std::unordered_set<unsigned> known;  // ast ids implied by pc
  std::vector<z3::expr> inputs;        // in vh_sym order
  std::vector<std::string> notes;
  u64 steps = 0;
  u64 nextSmall = 0x10000000ull;
  u64 nextBig = 1ull << 60;
  std::map<int, std::vector<Frame>> parked;  // cooperative threads not running now
  int cur = 0, nthreads = 0;
  std::set<int> finished;
  int crashArmed = 0;
  u64 crashCount = 0;
  std::shared_ptr<z3::expr> crashVar;
  std::map<std::string, int> reached;
  std::map<unsigned, std::pair<u64, u64>> bounds;  // inputs from vh_symr, by ast id
};

struct PathEnd {
  std::string why;
};

// ---------------------------------------------------------------- engine

struct MemInit {
  u64 arena, off;
  std::vector<unsigned> bytes;
};
struct Violation {
  std::string kind, msg, loc;
  std::vector<u64> vals;
  std::vector<MemInit> mem;
};


// ---------------------------------------------------------------- linear view
//
// Exact translation of bit-vector formulas whose terms are linear (sums,
// constant multiples, shifts and masks by powers of two) into integer
// arithmetic.  Used only to show that a set of constraints has no solution:
// constraints that cannot be translated are left out, which is the safe side.

struct Lin {
  typedef __int128 I;
  struct T {
    bool ok = false;
    z3::expr e;
    I lo = 0, hi = 0;
    std::vector<int> defs;
    T() : e(*Z) {}
  };
  std::vector<z3::expr> defs, pin;
  std::unordered_map<unsigned, T> terms, forms;
  unsigned fresh = 0;

  static z3::expr num(I v) {
    bool neg = v < 0;
    unsigned __int128 u = neg ? -(unsigned __int128)v : v;
    std::string d;
    do {
      d.insert(d.begin(), '0' + (int)(u % 10));
      u /= 10;
    } while (u);
    if (neg) d = "-" + d;
    return Z->int_val(d.c_str());
  }
  static void merge(std::vector<int>& a, const std::vector<int>& b) {
    for (int x : b)
      if (std::find(a.begin(), a.end(), x) == a.end()) a.push_back(x);
  }
  z3::expr var() { return Z->int_const(("lin!" + std::to_string(fresh++)).c_str()); }
  int def(const z3::expr& d) {
    defs.push_back(d);
    return defs.size() - 1;
  }
  // t modulo 2^w
  T wrap(T t, unsigned w) {
    I m = (I)1 << w;
    if (t.lo >= 0 && t.hi < m) return t;
    I klo = t.lo >= 0 ? t.lo / m : -((-t.lo + m - 1) / m), khi = t.hi >= 0 ? t.hi / m : -((-t.hi + m - 1) / m);
    if (klo == khi) {
      t.e = t.e - num(klo * m);
      t.lo -= klo * m;
      t.hi -= klo * m;
      return t;
    }
    z3::expr k = var();
    T r;
    r.ok = true;
    r.e = t.e - num(m) * k;
    r.lo = 0;
    r.hi = m - 1;
    r.defs = t.defs;
    r.defs.push_back(def(num(klo) <= k && k <= num(khi) && r.e >= 0 && r.e < num(m)));
    return r;
  }
  // bits [lo, lo+w) of t, which is in [0, 2^tw)
  T bits(T t, unsigned lo, unsigned w) {
    if (lo) {
      I d = (I)1 << lo;
      z3::expr q = var();
      T r;
      r.ok = true;
      r.e = q;
      r.lo = t.lo / d;
      r.hi = t.hi / d;
      r.defs = t.defs;
      r.defs.push_back(def(num(d) * q <= t.e && t.e < num(d) * q + num(d)));
      t = r;
    }
    return wrap(t, w);
  }
  const T& term(const z3::expr& e) {
    unsigned id = Z3_get_ast_id(*Z, e);
    auto it = terms.find(id);
    if (it != terms.end()) return it->second;
    T r = term_(e);
    pin.push_back(e);
    return terms[id] = r;
  }
  T term_(const z3::expr& e) {
    T r;
    if (!e.is_bv() || !e.is_app()) return r;
    unsigned w = e.get_sort().bv_size();
    if (w > 64) return r;
    if (e.is_numeral()) {
      u64 v = e.get_numeral_uint64();
      r.ok = true;
      r.e = num((I)v);
      r.lo = r.hi = (I)v;
      return r;
    }
    Z3_decl_kind k = e.decl().decl_kind();
    unsigned n = e.num_args();
    if (k == Z3_OP_UNINTERPRETED && n == 0) {
      r.ok = true;
      r.e = var();
      r.lo = 0;
      r.hi = ((I)1 << w) - 1;
      r.defs.push_back(def(r.e >= 0 && r.e <= num(r.hi)));
      return r;
    }
    if (k == Z3_OP_BADD || k == Z3_OP_BSUB) {
      for (unsigned i = 0; i < n; i++) {
        T a = term(e.arg(i));
        if (!a.ok) return r;
        // -1 * x reads better as a small negative coefficient than as 2^w - x.
        if (i == 0) {
          r = a;
        } else if (k == Z3_OP_BADD) {
          T neg;
          bool isneg = negated(e.arg(i), w, neg);
          if (isneg) a = neg;
          r.e = r.e + a.e;
          r.lo += a.lo;
          r.hi += a.hi;
          merge(r.defs, a.defs);
        } else {
          r.e = r.e - a.e;
          r.lo -= a.hi;
          r.hi -= a.lo;
          merge(r.defs, a.defs);
        }
        if (i == 0 && k == Z3_OP_BADD) {
          T neg;
          if (negated(e.arg(0), w, neg)) r = neg;
          if (e.arg(0).is_numeral() && r.lo >= ((I)1 << (w - 1))) {
            r.lo -= (I)1 << w;
            r.hi = r.lo;
            r.e = num(r.lo);
          }
        }
      }
      r.ok = true;
      return wrap(r, w);
    }
    if (k == Z3_OP_BNEG || k == Z3_OP_BMUL) {
      T neg;
      if (negated(e, w, neg)) return wrap(neg, w);
      if (k == Z3_OP_BMUL && n == 2 && e.arg(0).is_numeral()) {
        I c = (I)e.arg(0).get_numeral_uint64();
        T a = term(e.arg(1));
        if (!a.ok || c > ((I)1 << 32)) return r;
        r = a;
        r.e = num(c) * a.e;
        r.lo = c * a.lo;
        r.hi = c * a.hi;
        return wrap(r, w);
      }
      return r;
    }
    if (k == Z3_OP_BNOT) {
      T a = term(e.arg(0));
      if (!a.ok) return r;
      I m = ((I)1 << w) - 1;
      r = a;
      r.e = num(m) - a.e;
      r.lo = m - a.hi;
      r.hi = m - a.lo;
      return r;
    }
    if (k == Z3_OP_CONCAT) {
      unsigned sh = 0;
      r.e = Z->int_val(0);
      for (int i = (int)n - 1; i >= 0; i--) {
        T a = term(e.arg(i));
        if (!a.ok) return T();
        r.e = r.e + num((I)1 << sh) * a.e;
        r.lo += a.lo << sh;
        r.hi += a.hi << sh;
        merge(r.defs, a.defs);
        sh += e.arg(i).get_sort().bv_size();
      }
      r.ok = true;
      return r;
    }
    if (k == Z3_OP_ZERO_EXT) return term(e.arg(0));
    if (k == Z3_OP_SIGN_EXT) {
      T a = term(e.arg(0));
      if (!a.ok) return r;
      return wrap(sval(a, e.arg(0).get_sort().bv_size()), w);
    }
    bool sdiv = k == Z3_OP_BSDIV || k == Z3_OP_BSDIV_I, srem = k == Z3_OP_BSREM || k == Z3_OP_BSREM_I;
    bool udiv = k == Z3_OP_BUDIV || k == Z3_OP_BUDIV_I, urem = k == Z3_OP_BUREM || k == Z3_OP_BUREM_I;
    if ((sdiv || srem || udiv || urem) && e.arg(1).is_numeral()) {
      I c = (I)e.arg(1).get_numeral_uint64();
      T a = term(e.arg(0));
      if (!a.ok || c <= 0 || c > ((I)1 << 32)) return r;
      if (sdiv || srem) a = sval(a, w);
      z3::expr q = var(), m = a.e - num(c) * q;
      r.ok = true;
      r.defs = a.defs;
      z3::expr in = Z->bool_val(true);
      if (a.lo >= 0) {
        in = m >= 0 && m < num(c);
      } else {
        in = z3::ite(a.e >= 0, m >= 0 && m < num(c), m <= 0 && m > num(-c));
      }
      r.defs.push_back(def(in));
      if (sdiv || udiv) {
        r.e = q;
        r.lo = a.lo / c;
        r.hi = a.hi / c;
      } else {
        r.e = m;
        r.lo = a.lo >= 0 ? 0 : -(c - 1);
        r.hi = a.hi <= 0 ? 0 : c - 1;
      }
      return wrap(r, w);
    }
    if (k == Z3_OP_EXTRACT) {
      T a = term(e.arg(0));
      if (!a.ok) return r;
      return bits(a, e.lo(), w);
    }
    if (k == Z3_OP_ITE) {
      T c = form(e.arg(0)), a = term(e.arg(1)), b = term(e.arg(2));
      if (!c.ok || !a.ok || !b.ok) return r;
      r.ok = true;
      r.e = z3::ite(c.e, a.e, b.e);
      r.lo = std::min(a.lo, b.lo);
      r.hi = std::max(a.hi, b.hi);
      merge(r.defs, c.defs);
      merge(r.defs, a.defs);
      merge(r.defs, b.defs);
      return r;
    }
    return r;
  }
  // t, which is in [0, 2^w), read as a signed number
  T sval(T t, unsigned w) {
    I h = (I)1 << (w - 1), m = (I)1 << w;
    if (t.hi < h) return t;
    if (t.lo >= h) {
      t.e = t.e - num(m);
      t.lo -= m;
      t.hi -= m;
      return t;
    }
    T r;
    r.ok = true;
    z3::expr b = var();
    r.e = t.e - num(m) * b;
    r.lo = -h;
    r.hi = h - 1;
    r.defs = t.defs;
    r.defs.push_back(def(b >= 0 && b <= 1 && r.e >= num(-h) && r.e < num(h)));
    return r;
  }
  // e == -x or c*x with c close to 2^w
  bool negated(const z3::expr& e, unsigned w, T& out) {
    Z3_decl_kind k = e.decl().decl_kind();
    I c = -1;
    unsigned ix = 0;
    if (k == Z3_OP_BMUL && e.num_args() == 2 && e.arg(0).is_numeral()) {
      u64 v = e.arg(0).get_numeral_uint64();
      I s = w == 64 ? (I)(int64_t)v : (v >> (w - 1) & 1 ? (I)v - ((I)1 << w) : (I)v);
      if (s >= 0 || s < -((I)1 << 32)) return false;
      c = s;
      ix = 1;
    } else if (k != Z3_OP_BNEG) {
      return false;
    }
    T a = term(e.arg(ix));
    if (!a.ok) return false;
    out = a;
    out.e = num(c) * a.e;
    out.lo = c * a.hi;
    out.hi = c * a.lo;
    return true;
  }
  const T& form(const z3::expr& e) {
    unsigned id = Z3_get_ast_id(*Z, e);
    auto it = forms.find(id);
    if (it != forms.end()) return it->second;
    pin.push_back(e);
    auto raw = rawForm.find(id);
    T r;
    if (raw != rawForm.end()) {
      forms[id] = r;  // no answer while looking at the other form
      r = form_(raw->second);
    }
    if (!r.ok) r = form_(e);
    return forms[id] = r;
  }
  T form_(const z3::expr& e) {
    T r;
    if (!e.is_bool() || !e.is_app()) return r;
    Z3_decl_kind k = e.decl().decl_kind();
    if (k == Z3_OP_TRUE || k == Z3_OP_FALSE) {
      r.ok = true;
      r.e = e;
      return r;
    }
    if (k == Z3_OP_AND || k == Z3_OP_OR || k == Z3_OP_NOT || k == Z3_OP_IMPLIES || (k == Z3_OP_EQ && e.arg(0).is_bool()) || (k == Z3_OP_ITE)) {
      std::vector<z3::expr> as;
      for (unsigned i = 0; i < e.num_args(); i++) {
        T a = form(e.arg(i));
        if (!a.ok) return T();
        as.push_back(a.e);
        merge(r.defs, a.defs);
      }
      r.ok = true;
      if (k == Z3_OP_NOT) r.e = !as[0];
      else if (k == Z3_OP_IMPLIES) r.e = z3::implies(as[0], as[1]);
      else if (k == Z3_OP_EQ) r.e = as[0] == as[1];
      else if (k == Z3_OP_ITE) r.e = z3::ite(as[0], as[1], as[2]);
      else {
        z3::expr_vector v(*Z);
        for (auto& a : as) v.push_back(a);
        r.e = k == Z3_OP_AND ? z3::mk_and(v) : z3::mk_or(v);
      }
      return r;
    }
    if (k == Z3_OP_SLEQ || k == Z3_OP_SLT || k == Z3_OP_SGEQ || k == Z3_OP_SGT) {
      T a = term(e.arg(0)), b = term(e.arg(1));
      if (!a.ok || !b.ok) return r;
      unsigned w = e.arg(0).get_sort().bv_size();
      a = sval(a, w);
      b = sval(b, w);
      r.ok = true;
      merge(r.defs, a.defs);
      merge(r.defs, b.defs);
      r.e = k == Z3_OP_SLEQ ? a.e <= b.e : k == Z3_OP_SLT ? a.e < b.e : k == Z3_OP_SGEQ ? a.e >= b.e : a.e > b.e;
      return r;
    }
    if (k != Z3_OP_EQ && k != Z3_OP_ULEQ && k != Z3_OP_ULT && k != Z3_OP_UGEQ && k != Z3_OP_UGT && k != Z3_OP_DISTINCT) return r;
    if (e.num_args() != 2) return r;
    T a = term(e.arg(0)), b = term(e.arg(1));
    if (!a.ok || !b.ok) return r;
    r.ok = true;
    merge(r.defs, a.defs);
    merge(r.defs, b.defs);
    switch (k) {
      case Z3_OP_EQ: r.e = a.e == b.e; break;
      case Z3_OP_DISTINCT: r.e = a.e != b.e; break;
      case Z3_OP_ULEQ: r.e = a.e <= b.e; break;
      case Z3_OP_ULT: r.e = a.e < b.e; break;
      case Z3_OP_UGEQ: r.e = a.e >= b.e; break;
      default: r.e = a.e > b.e; break;
    }
    return r;
  }

  z3::solver* S = nullptr;
  std::vector<z3::expr> stk;
  u64 hits = 0, tries = 0;
  void put(const z3::expr& c) {
    T t = form(c);
    if (!t.ok && c.is_app() && c.decl().decl_kind() == Z3_OP_AND) {
      for (unsigned i = 0; i < c.num_args(); i++) put(c.arg(i));
      return;
    }
    if (!t.ok) return;
    for (int d : t.defs) S->add(defs[d]);
    S->add(t.e);
  }
  // true only if pc && cond certainly has no solution
  bool unsat(const std::vector<z3::expr>& pc, const z3::expr& cond) {
    if (!form(cond).ok) return false;
    if (!S) {
      S = new z3::solver(*Z, "QF_LIA");
      z3::params p(*Z);
      p.set("timeout", 300u);
      S->set(p);
    }
    tries++;
    size_t k = 0;
    while (k < stk.size() && k < pc.size() && Z3_get_ast_id(*Z, stk[k]) == Z3_get_ast_id(*Z, pc[k])) k++;
    if (stk.size() > k) {
      S->pop(stk.size() - k);
      stk.erase(stk.begin() + k, stk.end());
    }
    while (stk.size() < pc.size()) {
      S->push();
      put(pc[stk.size()]);
      stk.push_back(pc[stk.size()]);
    }
    S->push();
    put(cond);
    double t = now();
    bool r = S->check() == z3::unsat;
    if (now() - t > 0.25 && getenv("SYMEX_LINDUMP")) {
      fprintf(stderr, "---- slow linear query\n%s\nBV: %s\n", S->to_smt2().c_str(), cond.to_string().c_str());
    }
    S->pop();
    hits += r;
    return r;
  }
};

struct Engine {
  Module* M;
  Lin lin;
  bool useLin = false;
  double grace = 10;
  const DataLayout* DL;
  std::unordered_map<Function*, std::unordered_map<const Value*, unsigned>> regidx;
  std::unordered_map<const GlobalValue*, u64> gaddr;
  std::unordered_map<u64, Function*> faddr;
  std::deque<State*> work;
  z3::solver* S;
  std::vector<z3::expr> stk;
  u64 queries = 0, paths = 0, ended = 0, obligations = 0, discharged = 0, instrs = 0, forks = 0, memchecks = 0;
  double solver_s = 0, t0 = now(), limit = 600, qtimeout = 20;
  u64 maxsteps = 3000000;
  unsigned maxviol = 40;
  std::vector<Violation> viols;
  std::set<std::string> violKeys;
  std::map<std::string, std::vector<u64>> reach;
  std::map<std::string, std::vector<MemInit>> reachMem;
  std::vector<std::vector<MemInit>> sampleMem;
  std::vector<std::string> incomplete;
  std::set<std::string> funcs;
  std::vector<std::vector<u64>> samples;
  std::set<std::string> asserts;  // distinct assertion sites evaluated
  u64 shard = 0, shards = 1;
  State* cur = nullptr;
  Instruction* curI = nullptr;

  bool slow = getenv("SYMEX_SLOW") != nullptr;
  double lastLin = 0, linHit = 0, linMiss = 0, bvSat = 0, bvUnsat = 0;
  u64 nHit = 0, nMiss = 0, nSat = 0;

  // -------- solver

  void sync(State& s) {
    size_t k = 0;
    while (k < stk.size() && k < s.pc.size() && Z3_get_ast_id(*Z, stk[k]) == Z3_get_ast_id(*Z, s.pc[k])) k++;
    if (stk.size() > k) {
      S->pop(stk.size() - k);
      stk.erase(stk.begin() + k, stk.end());
    }
    while (stk.size() < s.pc.size()) {
      S->push();
      S->add(s.pc[stk.size()]);
      stk.push_back(s.pc[stk.size()]);
    }
  }
  // 1 sat, 0 unsat; throws PathEnd on unknown
  int query(State& s, const z3::expr& cond, std::shared_ptr<z3::model>* out) {
    queries++;
    double t = now();
    if (useLin && lin.unsat(s.pc, cond)) {
      solver_s += now() - t;
      linHit += now() - t;
      nHit++;
      return 0;
    }
    lastLin = now() - t;
    linMiss += lastLin;
    nMiss++;
    sync(s);
    S->push();
    S->add(cond);
    z3::check_result r = S->check();
    if (r == z3::sat && out) *out = std::make_shared<z3::model>(S->get_model());
    S->pop();
    if (r == z3::unknown) {
      queries++;
      z3::solver T = (z3::tactic(*Z, "simplify") & z3::tactic(*Z, "propagate-values") & z3::tactic(*Z, "solve-eqs") & z3::tactic(*Z, "simplify") & z3::tactic(*Z, "bit-blast") & z3::tactic(*Z, "sat")).mk_solver();
      z3::params p(*Z);
      p.set("timeout", (unsigned)(qtimeout * 4000));
      T.set(p);
      for (auto& x : s.pc) T.add(x);
      T.add(cond);
      r = T.check();
      if (r == z3::sat && out) *out = std::make_shared<z3::model>(T.get_model());
    }
    solver_s += now() - t;
    (r == z3::sat ? bvSat : bvUnsat) += now() - t - lastLin;
    nSat += r == z3::sat;
    if (slow && now() - t > 0.5) fprintf(stderr, "%.2fs (lin %.2f) %s %s\n", now() - t, lastLin, r == z3::sat ? "sat" : "unsat", loc().c_str());
    if (r == z3::unknown) {
      note("solver gave no answer at " + loc());
      throw PathEnd{"unknown"};
    }
    return r == z3::sat;
  }
  void note(const std::string& m) {
    for (auto& x : incomplete)
      if (x == m) return;
    incomplete.push_back(m);
  }
  bool evalb(State& s, const z3::expr& c) { return s.model->eval(c, true).is_true(); }
  u64 evalu(State& s, const z3::expr& c) { return s.model->eval(c, true).get_numeral_uint64(); }

  void learn(State& s, const z3::expr& c) { s.known.insert(Z3_get_ast_id(*Z, c)); keep.push_back(c); }
  std::vector<z3::expr> keep;  // pins ast ids

  // Decide a condition on this path; forks when both outcomes are feasible.
  // The sibling re-executes the current instruction.
  bool choose(State& s, const Val& cv) {
    if (cv.conc) return cv.c != 0;
    const z3::expr& c = *cv.e;
    if (s.known.count(Z3_get_ast_id(*Z, c))) return true;
    z3::expr nc = simp(!c);
    if (s.known.count(Z3_get_ast_id(*Z, nc))) return false;
    bool b = evalb(s, c);
    std::shared_ptr<z3::model> m;
    if (query(s, b ? nc : c, &m)) {
      State* o = new State(s);
      forks++;
      o->pc.push_back(b ? nc : c);
      learn(*o, b ? nc : c);
      o->model = m;
      work.push_back(o);
    }
    if (1) {
      // Adding an implied constraint is harmless; only record it.
      if (m) s.pc.push_back(b ? c : nc);
      learn(s, b ? c : nc);
    }
    return b;
  }
  // Is cond implied (no fork)?
  bool implied(State& s, const Val& cv) {
    if (cv.conc) return cv.c != 0;
    const z3::expr& c = *cv.e;
    if (s.known.count(Z3_get_ast_id(*Z, c))) return true;
    if (!evalb(s, c)) return false;
    z3::expr nc = simp(!c);
    if (query(s, nc, nullptr)) return false;
    learn(s, c);
    return true;
  }
  // Concretise by forking over all feasible values.
  u64 concretise(State& s, const Val& v) {
    if (v.conc) return v.c;
    for (;;) {
      u64 x = evalu(s, asbv(v));
      Val k = Val::C(x, v.w);
      if (choose(s, veq(v, k))) return x;
    }
  }
  void assume(State& s, const Val& c) {
    if (c.conc) {
      if (!c.c) throw PathEnd{"assume"};
      return;
    }
    if (s.known.count(Z3_get_ast_id(*Z, *c.e))) return;
    if (!evalb(s, *c.e)) {
      std::shared_ptr<z3::model> m;
      if (!query(s, *c.e, &m)) throw PathEnd{"assume"};
      s.model = m;
    }
    s.pc.push_back(*c.e);
    learn(s, *c.e);
  }

  std::string loc() {
    if (!curI) return "?";
    std::string f = curI->getFunction()->getName().str();
    if (const DebugLoc& d = curI->getDebugLoc()) {
      DILocation* L = d.get();
      return f + " " + L->getFilename().str() + ":" + std::to_string(L->getLine());
    }
    return f;
  }
  std::vector<u64> values(State& s, z3::model& m) {
    std::vector<u64> r;
    for (auto& i : s.inputs) r.push_back(m.eval(i, true).get_numeral_uint64());
    return r;
  }
  void violation(State& s, z3::model& m, const std::string& kind, const std::string& msg) {
    std::string l = loc(), key = kind + msg + l;
    if (violKeys.count(key)) return;
    violKeys.insert(key);
    if (kind != "hang") limit = std::min(limit, now() - t0 + grace);
    viols.push_back({kind, msg, l, values(s, m), meminit(s, m)});
  }
  // Initial bytes of big objects that the path depends on, for replay.
  std::vector<MemInit> meminit(State& s, z3::model& m) {
    std::vector<MemInit> r;
    for (auto& p : s.objs) {
      if (!p.second->big) continue;
      u64 ix = (p.first - (1ull << 60)) >> 58;
      MemInit lo{ix, 0, {}};
      for (auto& c : p.second->low0) lo.bytes.push_back(m.eval(toz(cellval(c)), true).get_numeral_uint64());
      if (lo.bytes.size()) r.push_back(lo);
      for (auto& b : p.second->init) {
        MemInit x{ix, m.eval(toz(b.off), true).get_numeral_uint64(), {}};
        for (auto& c : b.cells) x.bytes.push_back(m.eval(toz(cellval(c)), true).get_numeral_uint64());
        r.push_back(x);
      }
    }
    return r;
  }
  [[noreturn]] void memfail(State& s, const std::string& msg) {
    obligations++;
    violation(s, *s.model, "memory", msg);
    throw PathEnd{"memory"};
  }

  // -------- objects

  std::shared_ptr<Obj> mk(State& s, u64 size, const std::string& name) {
    auto o = std::make_shared<Obj>();
    o->base = s.nextSmall;
    o->size = Val::C(size, 64);
    o->span = size;
    o->name = name;
    Cell u;
    u.c = 0xAA;
    o->bytes.assign(size, u);
    u64 step = (size + 0x1000 + 0xfff) & ~0xfffull;
    s.nextSmall += step;
    s.objs[o->base] = o;
    return o;
  }
  Obj* mut(State& s, u64 base) {
    auto& p = s.objs[base];
    if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
    return p.get();
  }
  Obj* find(State& s, u64 addr) {
    auto it = s.objs.upper_bound(addr);
    if (it == s.objs.begin()) return nullptr;
    --it;
    Obj* o = it->second.get();
    if (addr - o->base > o->span) return nullptr;
    return o;
  }
  // Returns base of the object; off is the offset in it.
  u64 resolve(State& s, const Val& p, u64 n, bool write, Val& off) {
    u64 addr = p.conc ? p.c : evalu(s, toz(p));
    Obj* o = find(s, addr);
    if (!o) {
      char b[64];
      snprintf(b, sizeof b, "%s of %llu bytes at 0x%llx outside every object", write ? "write" : "read", (unsigned long long)n, (unsigned long long)addr);
      memfail(s, p.conc && addr < 4096 ? std::string("null pointer access") : std::string(write ? "write" : "read") + " outside every object");
    }
    if (o->freed) memfail(s, "access to freed memory " + o->name);
    if (write && o->ro) memfail(s, "write to read-only memory " + o->name);
    u64 base = o->base;
    off = vsub(p, Val::C(base, 64));
    if (off.conc && o->size.conc) {
      if (off.c > o->size.c || n > o->size.c - off.c) memfail(s, std::string(write ? "write" : "read") + " past the end of " + o->name);
      memchecks++;
      return base;
    }
    Val ok = vand(vuge(o->size, Val::C(n, 64)), vule(off, vsub(o->size, Val::C(n, 64))));
    std::string nm = o->name;
    if (!choose(s, ok)) memfail(s, std::string(write ? "write" : "read") + " past the end of " + nm);
    obligations++;
    discharged++;
    return base;
  }

  static Val cellval(const Cell& c) {
    if (!c.v) return Val::C(c.c, 8);
    return vextract(*c.v, c.idx * 8, 8);
  }
  static Val assemble(const Cell* c, unsigned n) {
    bool allc = true;
    for (unsigned i = 0; i < n; i++)
      if (c[i].v) allc = false;
    if (allc && n <= 8) {
      u64 r = 0;
      for (unsigned i = 0; i < n; i++) r |= (u64)c[i].c << (8 * i);
      return Val::C(r, n * 8);
    }
    if (c[0].v) {
      bool same = true;
      for (unsigned i = 0; i < n; i++)
        if (c[i].v != c[0].v || c[i].idx != c[0].idx + i) same = false;
      if (same) return vextract(*c[0].v, c[0].idx * 8, n * 8);
    }
    z3::expr r = toz(cellval(c[0]));
    for (unsigned i = 1; i < n; i++) r = z3::concat(toz(cellval(c[i])), r);
    return fromz(r, n * 8);
  }
  static void split(const Val& v, unsigned n, Cell* out) {
    if (v.conc) {
      for (unsigned i = 0; i < n; i++) {
        out[i].v = nullptr;
        out[i].c = i < 8 ? v.c >> (8 * i) : 0;
      }
      return;
    }
    auto p = std::make_shared<Val>(v);
    if (v.w != n * 8) *p = vzext(v, n * 8);
    for (unsigned i = 0; i < n; i++) {
      out[i].v = p;
      out[i].idx = i;
    }
  }

  // Read n cells of a big object at offset off, looking at log entries [0,top).
  void readlog(State& s, u64 base, Val off, unsigned n, int top, std::vector<Cell>& out) {
    // entries: init first (oldest), then log
    auto entry = [&](int i) -> Block& {
      Obj* o = s.objs[base].get();
      return i < (int)o->init.size() ? o->init[i] : o->log[i - o->init.size()];
    };
    for (int i = top - 1; i >= 0; i--) {
      Val eo = entry(i).off;
      unsigned en = entry(i).cells.size();
      Val d = vsub(off, eo);
      if (!d.conc) {
        Val dis = vand(vuge(d, Val::C(en, 64)), vuge(vsub(eo, off), Val::C(n, 64)));
        if (choose(s, dis)) continue;
        u64 dv = concretise(s, d);
        d = Val::C(dv, 64);
        off = vadd(eo, d);
      }
      int64_t dd = (int64_t)d.c;
      if (dd >= (int64_t)en || dd <= -(int64_t)n) continue;
      if (dd >= 0 && dd + n <= en) {
        auto& c = entry(i).cells;
        out.assign(c.begin() + dd, c.begin() + dd + n);
        return;
      }
      // Partial: byte by byte.
      out.clear();
      std::vector<Cell> one;
      for (unsigned k = 0; k < n; k++) {
        readlog(s, base, vadd(off, Val::C(k, 64)), 1, i + 1, one);
        out.push_back(one[0]);
      }
      return;
    }
    // Initial contents: unknown bytes, named on first read.
    Obj* o = mut(s, base);
    Block b;
    b.off = off;
    b.cells.resize(n);
    Val v;
    v.w = n * 8;
    v.conc = false;
    v.e = std::make_shared<z3::expr>(Z->bv_const(("mem" + std::to_string(fresh++)).c_str(), n * 8));
    if (n == 1) v.w = 8;
    split(v, n, b.cells.data());
    out = b.cells;
    o->init.insert(o->init.begin(), b);
  }
  u64 fresh = 0;

  void readcells(State& s, u64 base, Val off, unsigned n, std::vector<Cell>& out) {
    Obj* o = s.objs[base].get();
    if (!o->big) {
      u64 k = concretise(s, off);
      o = s.objs[base].get();
      out.assign(o->bytes.begin() + k, o->bytes.begin() + k + n);
      return;
    }
    u64 L = o->bytes.size();
    if (choose(s, vuge(off, Val::C(L, 64)))) {
      readlog(s, base, off, n, o->init.size() + o->log.size(), out);
      return;
    }
    u64 k = concretise(s, off);
    o = s.objs[base].get();
    out.clear();
    for (unsigned i = 0; i < n; i++) {
      if (k + i < L) {
        out.push_back(o->bytes[k + i]);
      } else {
        std::vector<Cell> one;
        readlog(s, base, Val::C(k + i, 64), 1, o->init.size() + o->log.size(), one);
        o = s.objs[base].get();
        out.push_back(one[0]);
      }
    }
  }
  void writecells(State& s, u64 base, Val off, const std::vector<Cell>& in) {
    unsigned n = in.size();
    if (!n) return;
    Obj* o = s.objs[base].get();
    if (!o->big) {
      u64 k = concretise(s, off);
      o = mut(s, base);
      for (unsigned i = 0; i < n; i++) o->bytes[k + i] = in[i];
      return;
    }
    u64 L = o->bytes.size();
    if (!choose(s, vuge(off, Val::C(L, 64)))) {
      u64 k = concretise(s, off);
      o = mut(s, base);
      unsigned i = 0;
      for (; i < n && k + i < L; i++) o->bytes[k + i] = in[i];
      if (i < n) {
        Block b;
        b.off = Val::C(k + i, 64);
        b.cells.assign(in.begin() + i, in.end());
        o->log.push_back(b);
      }
      return;
    }
    o = mut(s, base);
    for (int i = (int)o->log.size() - 1; i >= 0; i--) {
      Val d = vsub(off, o->log[i].off);
      unsigned en = o->log[i].cells.size();
      if (d.conc) {
        int64_t dd = (int64_t)d.c;
        if (dd >= (int64_t)en || dd <= -(int64_t)n) {
          if (i == (int)o->log.size() - 1 && dd == (int64_t)en) {  // adjacent: extend newest
            o->log[i].cells.insert(o->log[i].cells.end(), in.begin(), in.end());
            return;
          }
          continue;
        }
        if (dd >= 0 && dd + n <= en) {
          for (unsigned k = 0; k < n; k++) o->log[i].cells[dd + k] = in[k];
          return;
        }
        break;
      }
      Val dis = vand(vuge(d, Val::C(en, 64)), vuge(vsub(o->log[i].off, off), Val::C(n, 64)));
      if (!implied(s, dis)) break;
      o = mut(s, base);
    }
    Block b;
    b.off = off;
    b.cells = in;
    o->log.push_back(b);
  }

  Val lookupBits(Obj* o, const z3::expr& x, unsigned bit, u64 v, i128 k, i128 c, unsigned n) {
    if (!bit) {
      i128 off = k * (i128)v + c;
      // Out-of-range positions are excluded by the bounds check made before.
      return off + n <= (i128)o->bytes.size() ? assemble(&o->bytes[(u64)off], n) : assemble(&o->bytes[o->bytes.size() - n], n);
    }
    Val one = lookupBits(o, x, bit - 1, v | (1ull << (bit - 1)), k, c, n), zero = lookupBits(o, x, bit - 1, v, k, c, n);
    if (one.conc && zero.conc ? one.c == zero.c : !one.conc && !zero.conc && z3::eq(*one.e, *zero.e)) return one;
    return vite(fromz(x.extract(bit - 1, bit - 1) == Z->bv_val(1, 1), 1), one, zero);
  }
  Val lookupCases(State& s, Obj* o, std::vector<std::pair<z3::expr, i128>>& at, size_t k, i128 off, unsigned n) {
    if (k == at.size()) return assemble(&o->bytes[(u64)off], n);
    auto bd = s.bounds[at[k].first.id()];
    Val r;
    for (u64 v = bd.first; v <= bd.second; v++) {
      Val x = lookupCases(s, o, at, k + 1, off + at[k].second * (i128)v, n);
      r = v == bd.first ? x : vite(fromz(at[k].first == Z->bv_val((uint64_t)v, at[k].first.get_sort().bv_size()), 1), x, r);
    }
    return r;
  }
  // Table lookup: one expression instead of forks.
  Val lookup(State& s, Obj* o, const Val& off, unsigned n) {
    u64 lo = 0, hi = o->bytes.size() - n, step = 1;
    LF f = lf(s, *off.e);
    i128 a, b;
    lfrange(s, f, a, b);
    if (a >= 0 && b < lim(64)) {
      if (a > (i128)lo) lo = (u64)a;
      if (b < (i128)hi) hi = (u64)b;
      u64 g = 0;
      for (auto& p : f.t) g = std::__gcd(g, (u64)(p.second.second < 0 ? -p.second.second : p.second.second));
      if (g > 1 && f.c >= 0) {
        step = g;
        lo += ((u64)f.c % g + g - lo % g) % g;
        hi -= (hi % g + g - (u64)f.c % g) % g;
      }
    }
    // One narrow term: a decision tree over its bits, equal subtrees shared.
    if (f.t.size() == 1) {
      z3::expr x = f.t.begin()->second.first;
      unsigned xw = x.get_sort().bv_size();
      i128 k = f.t.begin()->second.second;
      if (xw <= 12 && k > 0 && f.c >= 0) return lookupBits(o, x, xw, 0, k, f.c, n);
    }
    // A few small inputs: case split on them.
    u64 prod = 1;
    for (auto& p : f.t) {
      auto it = s.bounds.find(p.first);
      u64 span = it == s.bounds.end() ? 10000 : it->second.second - it->second.first + 1;
      prod = span > 1000 ? 100000 : prod * span;
      if (prod > 1000) break;
    }
    if (prod <= 1000 && a >= 0 && b <= (i128)(o->bytes.size() - n)) {
      std::vector<std::pair<z3::expr, i128>> at;
      for (auto& p : f.t) at.push_back(p.second);
      return lookupCases(s, o, at, 0, f.c, n);
    }
    unsigned w = 1;
    while (w < 64 && (hi >> w)) w++;
    Val idx = w < 8 ? vextract(off, 0, 8) : vextract(off, 0, w);
    Val r = assemble(&o->bytes[hi], n);
    for (u64 i = hi; i >= lo + step;) {
      i -= step;
      r = vite(veq(idx, Val::C(i, idx.w)), assemble(&o->bytes[i], n), r);
    }
    return r;
  }
  Val lookup1(State& s, Obj* o, const Val& off, u64 i, u64 n) {
    (void)n;
    return lookup(s, o, vadd(off, Val::C(i, 64)), 1);
  }
  Val load(State& s, const Val& p, unsigned n, unsigned w) {
    Val off;
    u64 base = resolve(s, p, n, false, off);
    Obj* o = s.objs[base].get();
    if (!o->big && !off.conc && o->ro && o->bytes.size() <= 4096) {
      Val r = lookup(s, o, off, n);
      return w == n * 8 ? r : vextract(r, 0, w);
    }
    std::vector<Cell> c;
    readcells(s, base, off, n, c);
    Val r = assemble(c.data(), n);
    return w == n * 8 ? r : vextract(r, 0, w);
  }
  void storeEvent(State& s, u64 base) {
    // A crash may happen right before any store to a shared object.
    if (!s.crashArmed || !s.objs[base]->shared) return;
    Val cv;
    cv.w = 64;
    cv.conc = false;
    cv.e = s.crashVar;
    if (choose(s, veq(cv, Val::C(s.crashCount, 64)))) throw CrashNow{};
    s.crashCount++;
  }
  struct CrashNow {};
  void store(State& s, const Val& p, const Val& v, unsigned n) {
    Val off;
    u64 base = resolve(s, p, n, true, off);
    std::vector<Cell> c(n);
    split(v.w == 1 ? vzext(v, 8) : v, n, c.data());
    // Decide where it goes before the crash choice; both are pure decisions.
    Obj* o = s.objs[base].get();
    if (!o->big) {
      u64 k = concretise(s, off);
      off = Val::C(k, 64);
    } else if (!choose(s, vuge(off, Val::C(o->bytes.size(), 64)))) {
      u64 k = concretise(s, off);
      off = Val::C(k, 64);
    }
    storeEvent(s, base);
    writecells(s, base, off, c);
  }

  // -------- constants and operands

  unsigned width(Type* t) {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    return 0;
  }
  Val constant(const Constant* c) {
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
      if (ci->getBitWidth() <= 64) return Val::C(ci->getZExtValue(), ci->getBitWidth());
      std::string str;
      str = llvm::toString(ci->getValue(), 10, false);
      return fromz(Z->bv_val(str.c_str(), ci->getBitWidth()), ci->getBitWidth());
    }
    if (isa<ConstantPointerNull>(c)) return Val::C(0, 64);
    if (auto* cf = dyn_cast<ConstantFP>(c)) return Val::C(cf->getValueAPF().bitcastToAPInt().getZExtValue(), width(t));
    if (auto* g = dyn_cast<GlobalValue>(c)) return Val::C(gaddr.at(g), 64);
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
          APInt off(64, 0);
          if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) break;
          return Val::C(constant(ce->getOperand(0)).c + off.getZExtValue(), 64);
        }
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
        case Instruction::BitCast:
        case Instruction::Trunc:
        case Instruction::ZExt:
          return Val::C(constant(ce->getOperand(0)).c, width(t));
        case Instruction::Sub:
          return Val::C(constant(ce->getOperand(0)).c - constant(ce->getOperand(1)).c, width(t));
        case Instruction::Add:
          return Val::C(constant(ce->getOperand(0)).c + constant(ce->getOperand(1)).c, width(t));
        default:
          break;
      }
      throw PathEnd{"unmodelled constant expression"};
    }
    if (t->isStructTy() || t->isArrayTy()) {
      Val v;
      v.agg = std::make_shared<std::vector<Val>>();
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
      for (unsigned i = 0; i < n; i++) {
        Constant* e = c->getAggregateElement(i);
        v.agg->push_back(constant(e));
      }
      return v;
    }
    if (isa<UndefValue>(c)) return Val::C(0, width(t));
    throw PathEnd{"unmodelled constant"};
  }
  void initbytes(Obj* o, u64 off, const Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
      StringRef r = cd->getRawDataValues();
      for (size_t i = 0; i < r.size(); i++) o->bytes[off + i].c = r[i];
      return;
    }
    if (auto* st = dyn_cast<StructType>(t)) {
      auto* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) initbytes(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
      return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
      u64 es = DL->getTypeAllocSize(at->getElementType());
      for (unsigned i = 0; i < at->getNumElements(); i++) initbytes(o, off + i * es, c->getAggregateElement(i));
      return;
    }
    Val v = constant(c);
    split(v, DL->getTypeStoreSize(t), &o->bytes[off]);
  }

  Val& reg(Frame& f, const Value* v) { return f.regs[regidx[f.f][v]]; }
  Val op(State& s, const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return constant(c);
    Frame& f = s.stack.back();
    return f.regs[regidx[f.f].at(v)];
  }
  void set(State& s, const Value* v, const Val& x) { reg(s.stack.back(), v) = x; }

  // -------- setup

  State* init() {
    State* s = new State();
    u64 fa = 0x1000;
    for (auto& f : *M) {
      gaddr[&f] = fa;
      faddr[fa] = &f;
      fa += 16;
      unsigned n = 0;
      auto& m = regidx[&f];
      for (auto& a : f.args()) m[&a] = n++;
      for (auto& i : instructions(f))
        if (!i.getType()->isVoidTy()) m[&i] = n++;
    }
    for (auto& a : M->aliases()) {
      if (auto* f = dyn_cast<Function>(a.getAliasee())) gaddr[&a] = gaddr[f];
    }
    for (auto& g : M->globals()) {
      auto o = mk(*s, DL->getTypeAllocSize(g.getValueType()), g.getName().str());
      for (auto& c : o->bytes) c.c = 0;
      gaddr[&g] = o->base;
    }
    for (auto& g : M->globals()) {
      Obj* o = s->objs[gaddr[&g]].get();
      if (g.hasInitializer()) initbytes(o, 0, g.getInitializer());
      o->ro = g.isConstant();
    }
    auto e = mk(*s, 8, "errno");
    for (auto& c : e->bytes) c.c = 0;
    errnoAddr = e->base;
    z3::solver t(*Z);
    t.check();
    s->model = std::make_shared<z3::model>(t.get_model());
    Function* m = M->getFunction("main");
    push(*s, m, {}, nullptr);
    return s;
  }
  u64 errnoAddr = 0;

  void push(State& s, Function* f, const std::vector<Val>& args, CallBase* call) {
    if (s.stack.size() > 400) {
      violation(s, *s.model, "depth", "calls nested too deep");
      throw PathEnd{"depth"};
    }
    funcs.insert(f->getName().str());
    Frame fr;
    fr.f = f;
    fr.bb = &f->getEntryBlock();
    fr.it = fr.bb->begin();
    fr.regs.resize(regidx[f].size());
    for (unsigned i = 0; i < args.size() && i < f->arg_size(); i++) fr.regs[i] = args[i];
    fr.call = call;
    // byval arguments get a private copy
    for (unsigned i = 0; i < args.size() && i < f->arg_size(); i++) {
      if (f->getArg(i)->hasByValAttr()) {
        u64 n = DL->getTypeAllocSize(f->getArg(i)->getParamByValType());
        Val off;
        u64 base = resolve(s, args[i], n, false, off);
        std::vector<Cell> c;
        readcells(s, base, off, n, c);
        auto o = mk(s, n, "byval argument");
        o->bytes = c;
        fr.allocas.push_back(o->base);
        fr.regs[i] = Val::C(o->base, 64);
      }
    }
    s.stack.push_back(std::move(fr));
  }
  void popFrame(State& s) {
    for (u64 a : s.stack.back().allocas) s.objs.erase(a);
    s.stack.pop_back();
  }
  void jump(State& s, BasicBlock* to) {
    Frame& f = s.stack.back();
    f.prev = f.bb;
    f.bb = to;
    f.it = to->begin();
    // phis, simultaneously
    std::vector<std::pair<const Value*, Val>> vals;
    for (auto& i : *to) {
      auto* phi = dyn_cast<PHINode>(&i);
      if (!phi) break;
      vals.push_back({phi, op(s, phi->getIncomingValueForBlock(f.prev))});
      ++f.it;
    }
    for (auto& p : vals) set(s, p.first, p.second);
  }

  // -------- linear forms over bounded inputs (vh_symr)
  //
  // value = c + sum coef * atom (mod 2^w).  Used to divide by constants and to
  // compare when the ranges of the atoms settle it, so that decimal digit
  // arithmetic does not need bit-level division.


  struct LF {
    std::map<unsigned, std::pair<z3::expr, i128>> t;
    i128 c = 0;
  };
  static i128 lim(unsigned w) { return (i128)1 << w; }
  void lfrange(State& s, const LF& f, i128& lo, i128& hi) {
    lo = hi = f.c;
    for (auto& p : f.t) {
      i128 a = 0, b = lim(p.second.first.get_sort().bv_size()) - 1;
      auto it = s.bounds.find(p.first);
      if (it != s.bounds.end()) {
        a = it->second.first;
        b = it->second.second;
      }
      i128 k = p.second.second;
      lo += k > 0 ? k * a : k * b;
      hi += k > 0 ? k * b : k * a;
    }
  }
  static void lfadd(LF& f, const LF& g, i128 k) {
    f.c += k * g.c;
    for (auto& p : g.t) {
      auto it = f.t.find(p.first);
      if (it == f.t.end()) {
        f.t.insert({p.first, {p.second.first, k * p.second.second}});
      } else if (!(it->second.second += k * p.second.second)) {
        f.t.erase(it);
      }
    }
  }
  // The form stands for its value mod 2^w; move it so that its minimum is in [0, 2^w).
  void lfnorm(State& s, LF& f, unsigned w, i128& lo, i128& hi) {
    lfrange(s, f, lo, hi);
    i128 k = lo >= 0 ? lo / lim(w) : -((-lo + lim(w) - 1) / lim(w));
    f.c -= k * lim(w);
    lo -= k * lim(w);
    hi -= k * lim(w);
  }
  LF lfatom(const z3::expr& e) {
    LF f;
    f.t.insert({e.id(), {e, 1}});
    return f;
  }
  static i128 bigNumeral(const z3::expr& e) {
    unsigned w = e.get_sort().bv_size();
    i128 v = e.get_numeral_uint64();
    return v >= lim(w - 1) ? v - lim(w) : v;
  }
  LF lf(State& s, const z3::expr& e, int depth = 0) {
    unsigned w = e.get_sort().bv_size();
    if (depth > 64 || w > 64) return lfatom(e);
    if (e.is_numeral()) {
      LF f;
      f.c = bigNumeral(e);
      return f;
    }
    if (!e.is_app()) return lfatom(e);
    auto k = e.decl().decl_kind();
    if (k == Z3_OP_BADD) {
      LF f;
      for (unsigned i = 0; i < e.num_args(); i++) lfadd(f, lf(s, e.arg(i), depth + 1), 1);
      return f;
    }
    if (k == Z3_OP_BMUL && e.num_args() == 2 && e.arg(0).is_numeral()) {
      LF f;
      lfadd(f, lf(s, e.arg(1), depth + 1), bigNumeral(e.arg(0)));
      return f;
    }
    i128 lo, hi;
    if (k == Z3_OP_ZERO_EXT || (k == Z3_OP_CONCAT && e.num_args() == 2 && e.arg(0).is_numeral() && e.arg(0).get_sort().bv_size() <= 64 && e.arg(0).get_numeral_uint64() == 0)) {
      z3::expr x = e.arg(e.num_args() - 1);
      LF f = lf(s, x, depth + 1);
      lfnorm(s, f, x.get_sort().bv_size(), lo, hi);
      if (hi < lim(x.get_sort().bv_size())) return f;
      return lfatom(e);
    }
    if (k == Z3_OP_SIGN_EXT) {
      z3::expr x = e.arg(0);
      LF f = lf(s, x, depth + 1);
      lfrange(s, f, lo, hi);
      unsigned n = x.get_sort().bv_size();
      if (lo >= -lim(n - 1) && hi < lim(n - 1)) return f;
      return lfatom(e);
    }
    if (k == Z3_OP_EXTRACT && e.lo() == 0) {
      LF f = lf(s, e.arg(0), depth + 1);
      lfnorm(s, f, e.arg(0).get_sort().bv_size(), lo, hi);
      if (hi < lim(w)) return f;
    }
    return lfatom(e);
  }
  Val lfval(const LF& f, unsigned w) {
    z3::expr r = Z->bv_val((uint64_t)f.c, w);
    for (auto& p : f.t) {
      z3::expr a = p.second.first;
      unsigned n = a.get_sort().bv_size();
      if (n < w) a = z3::zext(a, w - n);
      r = r + Z->bv_val((uint64_t)p.second.second, w) * a;
    }
    return fromz(r, w);
  }
  // a / b and a % b for constant b; false if the form does not split.
  bool lfdiv(State& s, const Val& a, u64 b, bool sgn, Val& q, Val& r) {
    if (s.bounds.empty() || a.conc || a.w > 64 || b == 0) return false;
    LF f = lf(s, *a.e), fq, fr;
    i128 lo, hi;
    lfrange(s, f, lo, hi);
    bool neg = false;
    if (sgn && hi <= 0 && lo >= -lim(a.w - 1)) {  // truncates towards zero: divide the negation
      LF g;
      lfadd(g, f, -1);
      f = g;
      neg = true;
      lo = 0;
    } else {
      lfnorm(s, f, a.w, lo, hi);
      if (hi >= lim(sgn ? a.w - 1 : a.w)) return false;
    }
    fq.c = f.c / (i128)b;
    fr.c = f.c % (i128)b;
    if (fr.c < 0) {
      fr.c += b;
      fq.c -= 1;
    }
    for (auto& p : f.t) {
      i128 k = p.second.second;
      if (k % (i128)b == 0) {
        fq.t.insert({p.first, {p.second.first, k / (i128)b}});
      } else {
        fr.t.insert(p);
      }
    }
    lfrange(s, fr, lo, hi);
    i128 k = lo >= 0 ? lo / (i128)b : -((-lo + (i128)b - 1) / (i128)b);
    fr.c -= k * (i128)b;
    fq.c += k;
    if (hi - k * (i128)b >= (i128)b) return false;
    if (neg) {
      LF z;
      lfadd(z, fq, -1);
      fq = z;
      LF y;
      lfadd(y, fr, -1);
      fr = y;
    }
    q = lfval(fq, a.w);
    r = lfval(fr, a.w);
    return true;
  }
  // Width changes that keep the (non-negative) value.
  bool lfcast(State& s, Instruction* I) {
    if (s.bounds.empty()) return false;
    Val v = op(s, I->getOperand(0));
    unsigned w = width(I->getType());
    if (v.conc || v.w < 8 || v.w > 64 || w < 8 || w > 64) return false;
    LF f = lf(s, *v.e);
    i128 lo, hi;
    lfnorm(s, f, v.w, lo, hi);
    if (hi >= lim(std::min(v.w, w) - (I->getOpcode() == Instruction::SExt ? 1 : 0))) return false;
    set(s, I, lfval(f, w));
    return true;
  }
  bool lfcmp(State& s, unsigned p, const Val& a, const Val& b, bool& res) {
    if (s.bounds.empty() || a.w > 64 || a.w < 8) return false;
    LF fa = lf(s, toz(a)), fb = lf(s, toz(b));
    bool sgn = CmpInst::isSigned((CmpInst::Predicate)p);
    i128 lo, hi;
    for (LF* f : {&fa, &fb}) {
      if (sgn) {
        lfrange(s, *f, lo, hi);
      } else {
        lfnorm(s, *f, a.w, lo, hi);
      }
      if (sgn ? (lo < -lim(a.w - 1) || hi >= lim(a.w - 1)) : (lo < 0 || hi >= lim(a.w))) return false;
    }
    lfadd(fa, fb, -1);
    lfrange(s, fa, lo, hi);
    switch (p) {
      case CmpInst::ICMP_EQ:
      case CmpInst::ICMP_NE:
        if (lo == 0 && hi == 0) {
          res = p == CmpInst::ICMP_EQ;
          return true;
        }
        if (lo > 0 || hi < 0) {
          res = p == CmpInst::ICMP_NE;
          return true;
        }
        return false;
      case CmpInst::ICMP_ULT:
      case CmpInst::ICMP_SLT:
        if (hi < 0 || lo >= 0) {
          res = hi < 0;
          return true;
        }
        return false;
      case CmpInst::ICMP_ULE:
      case CmpInst::ICMP_SLE:
        if (hi <= 0 || lo > 0) {
          res = hi <= 0;
          return true;
        }
        return false;
      case CmpInst::ICMP_UGT:
      case CmpInst::ICMP_SGT:
        if (lo > 0 || hi <= 0) {
          res = lo > 0;
          return true;
        }
        return false;
      case CmpInst::ICMP_UGE:
      case CmpInst::ICMP_SGE:
        if (lo >= 0 || hi < 0) {
          res = lo >= 0;
          return true;
        }
        return false;
    }
    return false;
  }

  // -------- arithmetic

  Val sdivrem(State& s, unsigned opc, const Val& a, const Val& b) {
    Val z = veq(b, Val::C(0, b.w));
    if (choose(s, z)) {
      obligations++;
      violation(s, *s.model, "memory", "division by zero");
      throw PathEnd{"div"};
    }
    if (a.conc && b.conc) {
      int64_t x = (int64_t)(a.c << (64 - a.w)) >> (64 - a.w), y = (int64_t)(b.c << (64 - b.w)) >> (64 - b.w);
      switch (opc) {
        case Instruction::UDiv:
          return Val::C(a.c / b.c, a.w);
        case Instruction::URem:
          return Val::C(a.c % b.c, a.w);
        case Instruction::SDiv:
          return y == -1 ? Val::C(-(u64)x, a.w) : Val::C(x / y, a.w);
        case Instruction::SRem:
          return y == -1 ? Val::C(0, a.w) : Val::C(x % y, a.w);
      }
    }
    if (b.conc) {
      Val q, r;
      bool sgn = opc == Instruction::SDiv || opc == Instruction::SRem;
      if (!(sgn && b.c >> (b.w - 1)) && lfdiv(s, a, b.c, sgn, q, r)) return opc == Instruction::UDiv || opc == Instruction::SDiv ? q : r;
    }
    z3::expr x = toz(a), y = toz(b);
    switch (opc) {
      case Instruction::UDiv:
        return fromz(z3::udiv(x, y), a.w);
      case Instruction::URem:
        return fromz(z3::urem(x, y), a.w);
      case Instruction::SDiv:
        return fromz(x / y, a.w);
      default:
        return fromz(z3::srem(x, y), a.w);
    }
  }
  Val binop(State& s, unsigned opc, const Val& a, const Val& b) {
    if (opc == Instruction::UDiv || opc == Instruction::SDiv || opc == Instruction::URem || opc == Instruction::SRem) return sdivrem(s, opc, a, b);
    unsigned w = a.w;
    if (a.conc && b.conc) {
      switch (opc) {
        case Instruction::Add:
          return Val::C(a.c + b.c, w);
        case Instruction::Sub:
          return Val::C(a.c - b.c, w);
        case Instruction::Mul:
          return Val::C(a.c * b.c, w);
        case Instruction::And:
          return Val::C(a.c & b.c, w);
        case Instruction::Or:
          return Val::C(a.c | b.c, w);
        case Instruction::Xor:
          return Val::C(a.c ^ b.c, w);
        case Instruction::Shl:
          return Val::C(b.c >= w ? 0 : a.c << b.c, w);
        case Instruction::LShr:
          return Val::C(b.c >= w ? 0 : a.c >> b.c, w);
        case Instruction::AShr: {
          int64_t x = (int64_t)(a.c << (64 - w)) >> (64 - w);
          return Val::C(x >> (b.c >= 63 ? 63 : b.c), w);
        }
      }
    }
    if (w == 1) {
      z3::expr x = toz(a), y = toz(b);
      switch (opc) {
        case Instruction::And:
        case Instruction::Mul:
          return fromz(x && y, 1);
        case Instruction::Or:
          return fromz(x || y, 1);
        case Instruction::Xor:
        case Instruction::Add:
        case Instruction::Sub:
          return fromz(x != y, 1);
      }
      throw PathEnd{"unmodelled i1 operation"};
    }
    z3::expr x = toz(a), y = toz(b);
    switch (opc) {
      case Instruction::Add:
        return fromz(x + y, w);
      case Instruction::Sub:
        return fromz(x - y, w);
      case Instruction::Mul:
        return fromz(x * y, w);
      case Instruction::And:
        return fromz(x & y, w);
      case Instruction::Or:
        return fromz(x | y, w);
      case Instruction::Xor:
        return fromz(x ^ y, w);
      case Instruction::Shl:
        return fromz(z3::shl(x, y), w);
      case Instruction::LShr:
        return fromz(z3::lshr(x, y), w);
      case Instruction::AShr:
        return fromz(z3::ashr(x, y), w);
    }
    throw PathEnd{"unmodelled operation"};
  }
  Val icmp(unsigned p, const Val& a, const Val& b) {
    unsigned w = a.w;
    if (a.conc && b.conc) {
      int64_t x = (int64_t)(a.c << (64 - w)) >> (64 - w), y = (int64_t)(b.c << (64 - w)) >> (64 - w);
      bool r = false;
      switch (p) {
        case CmpInst::ICMP_EQ: r = a.c == b.c; break;
        case CmpInst::ICMP_NE: r = a.c != b.c; break;
        case CmpInst::ICMP_UGT: r = a.c > b.c; break;
        case CmpInst::ICMP_UGE: r = a.c >= b.c; break;
        case CmpInst::ICMP_ULT: r = a.c < b.c; break;
        case CmpInst::ICMP_ULE: r = a.c <= b.c; break;
        case CmpInst::ICMP_SGT: r = x > y; break;
        case CmpInst::ICMP_SGE: r = x >= y; break;
        case CmpInst::ICMP_SLT: r = x < y; break;
        case CmpInst::ICMP_SLE: r = x <= y; break;
      }
      return Val::C(r, 1);
    }
    z3::expr x = asbv(a), y = asbv(b);
    if (w == 1 && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) {
      z3::expr q = toz(a) == toz(b);
      return fromz(p == CmpInst::ICMP_EQ ? q : !q, 1);
    }
    switch (p) {
      case CmpInst::ICMP_EQ: return fromz(x == y, 1);
      case CmpInst::ICMP_NE: return fromz(x != y, 1);
      case CmpInst::ICMP_UGT: return fromz(z3::ugt(x, y), 1);
      case CmpInst::ICMP_UGE: return fromz(z3::uge(x, y), 1);
      case CmpInst::ICMP_ULT: return fromz(z3::ult(x, y), 1);
      case CmpInst::ICMP_ULE: return fromz(z3::ule(x, y), 1);
      case CmpInst::ICMP_SGT: return fromz(x > y, 1);
      case CmpInst::ICMP_SGE: return fromz(x >= y, 1);
      case CmpInst::ICMP_SLT: return fromz(x < y, 1);
      case CmpInst::ICMP_SLE: return fromz(x <= y, 1);
    }
    throw PathEnd{"unmodelled comparison"};
  }
  Val vsext(const Val& v, unsigned w) {
    if (v.w == w) return v;
    if (v.conc && w <= 64) {
      int64_t x = (int64_t)(v.c << (64 - v.w)) >> (64 - v.w);
      return Val::C((u64)x, w);
    }
    return fromz(z3::sext(asbv(v), w - v.w), w);
  }

  // -------- memory operations on ranges

  std::string cstr(State& s, const Val& p) {  // concrete string (messages)
    std::string r;
    Val q = p;
    for (int i = 0; i < 200; i++) {
      Val b = load(s, q, 1, 8);
      if (!b.conc || !b.c) break;
      r.push_back((char)b.c);
      q = vadd(q, Val::C(1, 64));
    }
    return r;
  }
  void copy(State& s, const Val& dst, const Val& src, u64 n) {
    if (!n) return;
    Val so, d0;
    u64 sb = resolve(s, src, n, false, so);
    u64 db = resolve(s, dst, n, true, d0);
    std::vector<Cell> c;
    Obj* o = s.objs[sb].get();
    if (!o->big && !so.conc && o->ro && o->bytes.size() <= 4096 && n <= 8) {
      c.resize(n);
      for (u64 i = 0; i < n; i++) split(lookup1(s, o, so, i, n), 1, &c[i]);
    } else {
      readcells(s, sb, so, n, c);
    }
    put(s, db, d0, c);
  }
  // Write cells; to a shared object while crashes are armed, word by word.
  void put(State& s, u64 db, const Val& d0, const std::vector<Cell>& c) {
    if (s.crashArmed && s.objs[db]->shared) {
      // Decide how many words land before the crash, if it happens inside.
      u64 words = (c.size() + 7) / 8, k;
      Val cv;
      cv.w = 64;
      cv.conc = false;
      cv.e = s.crashVar;
      for (k = 0; k < words; k++)
        if (choose(s, veq(cv, Val::C(s.crashCount + k, 64)))) break;
      size_t n = k < words ? k * 8 : c.size();
      if (n) writecells(s, db, d0, std::vector<Cell>(c.begin(), c.begin() + n));
      if (k < words) throw CrashNow{};
      s.crashCount += words;
      return;
    }
    writecells(s, db, d0, c);
  }
  void fill(State& s, const Val& dst, const Val& byte, u64 n) {
    if (!n) return;
    Val d0;
    u64 db = resolve(s, dst, n, true, d0);
    std::vector<Cell> c(n);
    for (auto& x : c) split(byte, 1, &x);
    put(s, db, d0, c);
  }

  // Builtin library functions. Returns false if unknown.
  bool builtin(State& s, Function* f, CallBase* cb, Val& ret) {
    StringRef n = f->getName();
    auto A = [&](unsigned i) { return op(s, cb->getArgOperand(i)); };
    ret = Val::C(0, width(cb->getType()) ? width(cb->getType()) : 32);
    if (n == "vh_sym") {
      unsigned bits = A(0).c;
      z3::expr v = Z->bv_const(("in" + std::to_string(s.inputs.size())).c_str(), bits);
      s.inputs.push_back(v);
      ret = fromz(bits < 64 ? z3::zext(v, 64 - bits) : v, 64);
      return true;
    }
    if (n == "vh_symr") {  // bits, lo, hi
      unsigned bits = A(0).c;
      u64 lo = A(1).c, hi = A(2).c;
      z3::expr v = Z->bv_const(("in" + std::to_string(s.inputs.size())).c_str(), bits);
      s.inputs.push_back(v);
      s.bounds[v.id()] = {lo, hi};
      ret = fromz(bits < 64 ? z3::zext(v, 64 - bits) : v, 64);
      assume(s, fromz(z3::uge(v, Z->bv_val((uint64_t)lo, bits)) && z3::ule(v, Z->bv_val((uint64_t)hi, bits)), 1));
      return true;
    }
    if (n == "vh_assume_") {
      Val c = A(0);
      assume(s, icmp(CmpInst::ICMP_NE, c, Val::C(0, c.w)));
      return true;
    }
    if (n == "vh_assert_") {
      std::string msg = cstr(s, A(1));
      Val v = A(0);
      Val c = icmp(CmpInst::ICMP_NE, v, Val::C(0, v.w));
      obligations++;
      asserts.insert(msg);
      if (c.conc) {
        if (c.c) {
          discharged++;
          return true;
        }
        violation(s, *s.model, "PROP", msg);
        throw PathEnd{"assert"};
      }
      std::shared_ptr<z3::model> m;
      if (getenv("SYMEX_DUMP")) fprintf(stderr, "assert %s: %.3000s\n", msg.c_str(), Z3_ast_to_string(*Z, *c.e));
      if (!evalb(s, *c.e)) {
        violation(s, *s.model, "PROP", msg);
      } else if (query(s, !*c.e, &m)) {
        violation(s, *m, "PROP", msg);
      } else {
        discharged++;
        learn(s, *c.e);
        return true;
      }
      assume(s, c);
      return true;
    }
    if (n == "vh_reach_") {
      std::string msg = cstr(s, A(0));
      if (!reach.count(msg)) {
        reach[msg] = values(s, *s.model);
        reachMem[msg] = meminit(s, *s.model);
      }
      return true;
    }
    if (n == "vh_concrete") {
      ret = Val::C(concretise(s, A(0)), 64);
      return true;
    }
    if (n == "vh_arena_") {  // size, low
      auto o = std::make_shared<Obj>();
      o->base = s.nextBig;
      s.nextBig += 1ull << 58;
      o->size = A(0);
      o->span = 1ull << 57;
      o->big = true;
      o->name = "arena";
      u64 low = A(1).c;
      o->bytes.resize(low);
      for (u64 i = 0; i < low; i++) {
        o->bytes[i].v = std::make_shared<Val>(fromz(Z->bv_const(("low" + std::to_string(o->base >> 58) + "_" + std::to_string(i)).c_str(), 8), 8));
        if (A(2).c) {
          o->bytes[i].v = nullptr;
          o->bytes[i].c = 0;
        }
      }
      o->low0 = o->bytes;
      s.objs[o->base] = o;
      ret = Val::C(o->base, 64);
      return true;
    }
    if (n == "vh_shared") {
      Obj* o = find(s, A(0).c);
      if (o) mut(s, o->base)->shared = true;
      return true;
    }
    if (n == "vh_readonly") {
      Obj* o = find(s, A(0).c);
      u64 on = A(1).c;
      if (o) mut(s, o->base)->ro = on;
      return true;
    }
    if (n == "malloc" || n == "calloc") {
      Val szv = n == "calloc" ? binop(s, Instruction::Mul, A(0), A(1)) : A(0);
      u64 sz = concretise(s, szv);
      if (sz > (1u << 20)) {
        ret = Val::C(0, 64);
        return true;
      }
      auto o = mk(s, sz, "heap block");
      o->heap = true;
      for (auto& c : o->bytes) c.c = n == "calloc" ? 0 : 0xbe;
      ret = Val::C(o->base, 64);
      return true;
    }
    if (n == "realloc") {
      Val p = A(0);
      u64 sz = concretise(s, A(1));
      Obj* old = p.conc && p.c ? find(s, p.c) : nullptr;
      if (p.conc && p.c && (!old || old->freed || old->base != p.c)) memfail(s, "invalid realloc");
      auto o = mk(s, sz, "heap block");
      o->heap = true;
      for (auto& c : o->bytes) c.c = 0xbe;
      if (old) {
        for (u64 i = 0; i < sz && i < old->bytes.size(); i++) o->bytes[i] = old->bytes[i];
        mut(s, old->base)->freed = true;
      }
      ret = Val::C(o->base, 64);
      return true;
    }
    if (n == "free") {
      Val p = A(0);
      u64 a = concretise(s, p);
      if (!a) return true;
      Obj* o = find(s, a);
      if (!o || o->freed || o->base != a || !o->heap) memfail(s, o && o->freed ? "double free" : "invalid free");
      mut(s, a)->freed = true;
      return true;
    }
    if (n == "vh_live_heap") {
      u64 k = 0;
      for (auto& p : s.objs)
        if (p.second->heap && !p.second->freed) k++;
      ret = Val::C(k, 64);
      return true;
    }
    if (n == "memcpy" || n == "memmove") {
      Val d = A(0);
      u64 k = concretise(s, A(2));
      copy(s, d, A(1), k);
      ret = d;
      return true;
    }
    if (n == "memset") {
      Val d = A(0);
      fill(s, d, vextract(A(1), 0, 8), concretise(s, A(2)));
      ret = d;
      return true;
    }
    if (n == "memcmp" || n == "bcmp") {
      u64 k = concretise(s, A(2));
      Val r = Val::C(0, 32);
      if (!k) {
        ret = r;
        return true;
      }
      Val ao, bo;
      u64 ab = resolve(s, A(0), k, false, ao), bb = resolve(s, A(1), k, false, bo);
      std::vector<Cell> ca, cb2;
      readcells(s, ab, ao, k, ca);
      readcells(s, bb, bo, k, cb2);
      for (u64 i = k; i-- > 0;) {
        Val x = cellval(ca[i]), y = cellval(cb2[i]);
        r = vite(veq(x, y), r, vsub(vzext(x, 32), vzext(y, 32)));
      }
      ret = r;
      return true;
    }
    if (n == "strlen" || n == "strnlen") {
      Val p = A(0);
      u64 mx = n == "strnlen" ? concretise(s, A(1)) : ~0ull, k = 0;
      for (; k < mx; k++) {
        Val b = load(s, p, 1, 8);
        if (choose(s, veq(b, Val::C(0, 8)))) break;
        p = vadd(p, Val::C(1, 64));
      }
      ret = Val::C(k, 64);
      return true;
    }
    if (n == "strcmp" || n == "strncmp") {
      Val p = A(0), q = A(1);
      u64 mx = n == "strncmp" ? concretise(s, A(2)) : ~0ull;
      // Merge byte comparisons into one expression; stop where the strings
      // must have ended or differed.
      std::vector<std::pair<Val, Val>> bs;
      Val alive = Val::C(1, 1);
      for (u64 k = 0; k < mx; k++) {
        if (!alive.conc) {
          if (!mergeFeasible(s, alive)) break;
        } else if (!alive.c) {
          break;
        }
        // Reading here must be legal whenever the scan is still alive.
        u64 e1 = objEnd(s, p), e2 = objEnd(s, q);
        if ((!e1 || !e2)) {
          // Could run off an object: fork on whether the scan gets here.
          if (!choose(s, alive)) break;
        }
        Val x = load(s, p, 1, 8), y = load(s, q, 1, 8);
        bs.push_back({x, y});
        alive = vand(alive, vand(veq(x, y), vnot(veq(x, Val::C(0, 8)))));
        p = vadd(p, Val::C(1, 64));
        q = vadd(q, Val::C(1, 64));
      }
      Val r = Val::C(0, 32);
      for (size_t i = bs.size(); i-- > 0;) {
        Val x = bs[i].first, y = bs[i].second;
        Val diff = vsub(vzext(x, 32), vzext(y, 32));
        r = vite(veq(x, y), vite(veq(x, Val::C(0, 8)), Val::C(0, 32), r), diff);
      }
      ret = r;
      return true;
    }
    if (n == "strcpy" || n == "strcat" || n == "stpcpy") {
      Val d = A(0), p = A(1);
      if (n == "strcat") {
        for (;;) {
          Val b = load(s, d, 1, 8);
          if (choose(s, veq(b, Val::C(0, 8)))) break;
          d = vadd(d, Val::C(1, 64));
        }
      }
      u64 k = 0;
      for (Val q = p;; k++) {
        Val b = load(s, q, 1, 8);
        if (choose(s, veq(b, Val::C(0, 8)))) break;
        q = vadd(q, Val::C(1, 64));
      }
      copy(s, d, p, k + 1);
      ret = n == "stpcpy" ? vadd(d, Val::C(k, 64)) : A(0);
      return true;
    }
    if (n == "strchr" || n == "strrchr" || n == "memchr") {
      Val p = A(0), ch = vextract(A(1), 0, 8), last = Val::C(0, 64);
      u64 mx = n == "memchr" ? concretise(s, A(2)) : ~0ull;
      for (u64 k = 0; k < mx; k++) {
        Val b = load(s, p, 1, 8);
        if (choose(s, veq(b, ch))) {
          last = p;
          if (n != "strrchr") break;
        }
        if (n != "memchr" && choose(s, veq(b, Val::C(0, 8)))) break;
        p = vadd(p, Val::C(1, 64));
      }
      ret = last;
      return true;
    }
    if (n == "vsnprintf") {  // diagnostics only: the text is left empty
      if (concretise(s, A(1))) fill(s, A(0), Val::C(0, 8), 1);
      ret = Val::C(0, 32);
      return true;
    }
    if (n == "snprintf") {  // %[0][width][l|z]d/u, %s, %c, %%
      std::string fm = cstr(s, A(2));
      u64 cap = concretise(s, A(1)), out = 0;
      unsigned arg = 3;
      std::vector<Val> res;
      for (size_t i = 0; i < fm.size(); i++) {
        if (fm[i] != '%') {
          res.push_back(Val::C((unsigned char)fm[i], 8));
          continue;
        }
        i++;
        bool zero = false;
        unsigned wid = 0;
        if (i < fm.size() && fm[i] == '0') zero = true, i++;
        while (i < fm.size() && isdigit(fm[i])) wid = wid * 10 + (fm[i++] - '0');
        while (i < fm.size() && (fm[i] == 'l' || fm[i] == 'z' || fm[i] == 'h')) i++;
        char k = i < fm.size() ? fm[i] : 0;
        if (k == '%') {
          res.push_back(Val::C('%', 8));
        } else if (k == 'c') {
          res.push_back(vextract(A(arg++), 0, 8));
        } else if (k == 's') {
          for (Val q = A(arg++);; q = vadd(q, Val::C(1, 64))) {
            Val b = load(s, q, 1, 8);
            if (choose(s, veq(b, Val::C(0, 8)))) break;
            res.push_back(b);
          }
        } else if (k == 'd' || k == 'u') {
          Val v = A(arg++);
          std::vector<Val> ds;
          bool neg = false;
          bool r0;
          if (k == 'd') {
            Val z = Val::C(0, v.w);
            neg = lfcmp(s, CmpInst::ICMP_SLT, v, z, r0) ? r0 : choose(s, icmp(CmpInst::ICMP_SLT, v, z));
            if (neg) v = vsub(z, v);
          }
          for (;;) {
            Val d = sdivrem(s, Instruction::URem, v, Val::C(10, v.w));
            ds.push_back(vadd(vextract(d, 0, 8), Val::C('0', 8)));
            v = sdivrem(s, Instruction::UDiv, v, Val::C(10, v.w));
            Val z = Val::C(0, v.w);
            bool more;
            // With zero padding the leading digits look the same whether or not the value ended.
            if (v.conc) {
              more = v.c != 0;
            } else if (zero && ds.size() < wid - (neg ? 1 : 0)) {
              more = true;
            } else {
              more = lfcmp(s, CmpInst::ICMP_NE, v, z, r0) ? r0 : choose(s, icmp(CmpInst::ICMP_NE, v, z));
            }
            if (!more) break;
          }
          while (ds.size() + (neg ? 1 : 0) < wid) {
            if (!zero) break;
            ds.push_back(Val::C('0', 8));
          }
          if (neg) ds.push_back(Val::C('-', 8));
          while (ds.size() < wid) ds.push_back(Val::C(' ', 8));
          while (!ds.empty()) {
            res.push_back(ds.back());
            ds.pop_back();
          }
        } else {
          note("snprintf format " + fm);
          throw PathEnd{"snprintf"};
        }
      }
      ret = Val::C(res.size(), 32);
      out = cap && res.size() >= cap ? cap - 1 : res.size();
      if (cap) {
        for (u64 j = 0; j < out; j++) store(s, vadd(A(0), Val::C(j, 64)), res[j], 1);
        store(s, vadd(A(0), Val::C(out, 64)), Val::C(0, 8), 1);
      }
      return true;
    }
    if (n == "__errno_location") {
      ret = Val::C(errnoAddr, 64);
      return true;
    }
    if (n == "abort" || n == "__assert_fail") {
      obligations++;
      violation(s, *s.model, "memory", "abort");
      throw PathEnd{"abort"};
    }
    if (n == "exit" || n == "_exit") throw PathEnd{"exit"};
    if (n == "fprintf" || n == "printf" || n == "puts" || n == "fflush" || n == "perror") return true;
    return false;
  }
  bool mergeFeasible(State& s, const Val& c) {
    if (c.conc) return c.c;
    if (evalb(s, *c.e)) return true;
    return query(s, *c.e, nullptr);
  }
  u64 objEnd(State& s, const Val& p) {  // bytes left, 0 if none or unknown
    if (!p.conc) return 0;
    Obj* o = find(s, p.c);
    if (!o || !o->size.conc) return 0;
    u64 off = p.c - o->base;
    return off < o->size.c ? o->size.c - off : 0;
  }

  bool intrinsic(State& s, Function* f, CallBase* cb, Val& ret) {
    auto A = [&](unsigned i) { return op(s, cb->getArgOperand(i)); };
    unsigned w = width(cb->getType());
    ret = Val::C(0, w ? w : 32);
    switch (f->getIntrinsicID()) {
      case Intrinsic::memcpy:
      case Intrinsic::memmove:
      case Intrinsic::memcpy_inline:
        copy(s, A(0), A(1), concretise(s, A(2)));
        return true;
      case Intrinsic::memset:
      case Intrinsic::memset_inline:
        fill(s, A(0), A(1), concretise(s, A(2)));
        return true;
      case Intrinsic::lifetime_start:
      case Intrinsic::lifetime_end:
      case Intrinsic::dbg_declare:
      case Intrinsic::dbg_value:
      case Intrinsic::dbg_label:
      case Intrinsic::dbg_assign:
      case Intrinsic::assume:
      case Intrinsic::donothing:
      case Intrinsic::experimental_noalias_scope_decl:
      case Intrinsic::stackrestore:
      case Intrinsic::vastart:
      case Intrinsic::vaend:
      case Intrinsic::prefetch:
        return true;
      case Intrinsic::stacksave:
        return true;
      case Intrinsic::threadlocal_address: ret = A(0); return true;
      case Intrinsic::expect:
      case Intrinsic::expect_with_probability:
        ret = A(0);
        return true;
      case Intrinsic::umax: ret = vite(vuge(A(0), A(1)), A(0), A(1)); return true;
      case Intrinsic::umin: ret = vite(vule(A(0), A(1)), A(0), A(1)); return true;
      case Intrinsic::smax: ret = vite(icmp(CmpInst::ICMP_SGE, A(0), A(1)), A(0), A(1)); return true;
      case Intrinsic::smin: ret = vite(icmp(CmpInst::ICMP_SLE, A(0), A(1)), A(0), A(1)); return true;
      case Intrinsic::abs: {
        Val a = A(0);
        ret = vite(icmp(CmpInst::ICMP_SLT, a, Val::C(0, a.w)), vsub(Val::C(0, a.w), a), a);
        return true;
      }
      case Intrinsic::uadd_with_overflow:
      case Intrinsic::usub_with_overflow:
      case Intrinsic::umul_with_overflow:
      case Intrinsic::sadd_with_overflow:
      case Intrinsic::ssub_with_overflow:
      case Intrinsic::smul_with_overflow: {
        Val a = A(0), b = A(1);
        unsigned id = f->getIntrinsicID();
        bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        z3::expr x = toz(a), y = toz(b);
        if (id != Intrinsic::umul_with_overflow && id != Intrinsic::smul_with_overflow) {
          bool add = id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow;
          z3::expr r = add ? x + y : x - y, zero = Z->bv_val(0, a.w);
          z3::expr o = !sg ? (add ? z3::ult(r, x) : z3::ult(x, y))
                           : add ? ((y >= zero && r < x) || (y < zero && r > x)) : ((y >= zero && r > x) || (y < zero && r < x));
          ret.w = 0;
          ret.agg = std::make_shared<std::vector<Val>>();
          ret.agg->push_back(fromz(r, a.w));
          ret.agg->push_back(fromz(o, 1));
          return true;
        }
        z3::expr X = sg ? z3::sext(x, a.w) : z3::zext(x, a.w), Y = sg ? z3::sext(y, a.w) : z3::zext(y, a.w);
        z3::expr R = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? X + Y
                     : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? X - Y
                                                                                                    : X * Y;
        z3::expr lo = R.extract(a.w - 1, 0);
        z3::expr back = sg ? z3::sext(lo, a.w) : z3::zext(lo, a.w);
        ret.w = 0;
        ret.agg = std::make_shared<std::vector<Val>>();
        ret.agg->push_back(fromz(lo, a.w));
        ret.agg->push_back(fromz(back != R, 1));
        return true;
      }
      case Intrinsic::bswap: {
        Val a = A(0);
        z3::expr r = toz(vextract(a, 0, 8));
        for (unsigned i = 8; i < a.w; i += 8) r = z3::concat(r, toz(vextract(a, i, 8)));
        ret = fromz(r, a.w);
        return true;
      }
      case Intrinsic::fshl:
      case Intrinsic::fshr: {
        Val a = A(0), b = A(1), c = A(2);
        if (!c.conc) return false;
        unsigned k = c.c % a.w;
        if (k == 0) {
          ret = f->getIntrinsicID() == Intrinsic::fshl ? a : b;
          return true;
        }
        if (f->getIntrinsicID() == Intrinsic::fshr) k = a.w - k;
        ret = fromz(z3::shl(toz(a), Z->bv_val(k, a.w)) | z3::lshr(toz(b), Z->bv_val(a.w - k, a.w)), a.w);
        return true;
      }
      case Intrinsic::ctlz:
      case Intrinsic::cttz:
      case Intrinsic::ctpop: {
        Val a = A(0);
        unsigned id = f->getIntrinsicID();
        Val r = Val::C(id == Intrinsic::ctpop ? 0 : a.w, a.w);
        for (unsigned i = 0; i < a.w; i++) {
          unsigned bit = id == Intrinsic::ctlz ? i : a.w - 1 - i;
          Val b = vextract(a, bit, 1);
          if (id == Intrinsic::ctpop) r = vadd(r, vite(b, Val::C(1, a.w), Val::C(0, a.w)));
          else r = vite(b, Val::C(id == Intrinsic::ctlz ? a.w - 1 - bit : bit, a.w), r);
        }
        ret = r;
        return true;
      }
      case Intrinsic::objectsize:
        ret = Val::C(~0ull, w);
        return true;
      case Intrinsic::is_constant:
        ret = Val::C(0, 1);
        return true;
      case Intrinsic::trap:
      case Intrinsic::ubsantrap:
        obligations++;
        violation(s, *s.model, "memory", "trap");
        throw PathEnd{"trap"};
      default:
        return false;
    }
  }

  // -------- one instruction

  void retTo(State& s, const Val& v, bool hasv) {
    Frame& f = s.stack.back();
    CallBase* call = f.call;
    int crash = f.crash;
    popFrame(s);
    if (s.stack.empty()) {
      if (!s.cur) throw PathEnd{"done"};
      s.finished.insert(s.cur);
      s.cur = 0;
      s.stack = std::move(s.parked[0]);
      return;
    }
    if (crash) {
      s.crashArmed = 0;
      set(s, call, Val::C(0, 32));
      ++s.stack.back().it;
      return;
    }
    if (call && hasv && !call->getType()->isVoidTy()) set(s, call, v);
    ++s.stack.back().it;
  }
  void crashNow(State& s) {
    while (!s.stack.back().crash) popFrame(s);
    CallBase* call = s.stack.back().call;
    popFrame(s);
    s.crashArmed = 0;
    set(s, call, Val::C(1, 32));
    ++s.stack.back().it;
  }

  void step(State& s) {
    Frame& f = s.stack.back();
    Instruction* I = &*f.it;
    curI = I;
    instrs++;
    if (++s.steps > maxsteps) {
      violation(s, *s.model, "hang", "step limit reached");
      throw PathEnd{"steps"};
    }
    switch (I->getOpcode()) {
      case Instruction::Ret: {
        auto* r = cast<ReturnInst>(I);
        Val v;
        bool h = r->getReturnValue() != nullptr;
        if (h) v = op(s, r->getReturnValue());
        retTo(s, v, h);
        return;
      }
      case Instruction::Br: {
        auto* b = cast<BranchInst>(I);
        if (b->isUnconditional()) {
          jump(s, b->getSuccessor(0));
          return;
        }
        Val c = op(s, b->getCondition());
        jump(s, choose(s, c) ? b->getSuccessor(0) : b->getSuccessor(1));
        return;
      }
      case Instruction::Switch: {
        auto* sw = cast<SwitchInst>(I);
        Val c = op(s, sw->getCondition());
        for (auto& cs : sw->cases()) {
          if (choose(s, veq(c, constant(cs.getCaseValue())))) {
            jump(s, cs.getCaseSuccessor());
            return;
          }
        }
        jump(s, sw->getDefaultDest());
        return;
      }
      case Instruction::Unreachable:
        throw PathEnd{"unreachable"};
      case Instruction::Alloca: {
        auto* a = cast<AllocaInst>(I);
        u64 n = DL->getTypeAllocSize(a->getAllocatedType()) * concretise(s, op(s, a->getArraySize()));
        auto o = mk(s, n, a->hasName() ? a->getName().str() : "local");
        s.stack.back().allocas.push_back(o->base);
        set(s, I, Val::C(o->base, 64));
        break;
      }
      case Instruction::Load: {
        auto* l = cast<LoadInst>(I);
        Type* t = l->getType();
        set(s, I, loadT(s, op(s, l->getPointerOperand()), t));
        break;
      }
      case Instruction::Store: {
        auto* st = cast<StoreInst>(I);
        Val v = op(s, st->getValueOperand());
        storeT(s, op(s, st->getPointerOperand()), v, st->getValueOperand()->getType());
        break;
      }
      case Instruction::GetElementPtr: {
        auto* g = cast<GetElementPtrInst>(I);
        Val p = op(s, g->getPointerOperand());
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          Val ix = op(s, it.getOperand());
          if (StructType* st = it.getStructTypeOrNull()) {
            p = vadd(p, Val::C(DL->getStructLayout(st)->getElementOffset(ix.c), 64));
          } else {
            u64 es = DL->getTypeAllocSize(it.getIndexedType());
            p = vadd(p, binop(s, Instruction::Mul, vsext(ix, 64), Val::C(es, 64)));
          }
        }
        set(s, I, p);
        break;
      }
      case Instruction::ICmp: {
        auto* c = cast<ICmpInst>(I);
        Val ca = op(s, c->getOperand(0)), cb2 = op(s, c->getOperand(1));
        bool res;
        if (!(ca.conc && cb2.conc) && lfcmp(s, c->getPredicate(), ca, cb2, res)) {
          set(s, I, Val::C(res, 1));
        } else {
          set(s, I, icmp(c->getPredicate(), ca, cb2));
        }
        break;
      }
      case Instruction::Select: {
        auto* x = cast<SelectInst>(I);
        Val c = op(s, x->getCondition()), a = op(s, x->getTrueValue()), b = op(s, x->getFalseValue());
        if (a.agg || b.agg) {
          set(s, I, choose(s, c) ? a : b);
          break;
        }
        if (I->getType()->isPointerTy() && !c.conc) {
          set(s, I, choose(s, c) ? a : b);
          break;
        }
        set(s, I, vite(c, a, b));
        break;
      }
      case Instruction::ZExt:
        if (lfcast(s, I)) break;
        set(s, I, vzext(op(s, I->getOperand(0)), width(I->getType())));
        break;
      case Instruction::SExt:
        if (lfcast(s, I)) break;
        set(s, I, vsext(op(s, I->getOperand(0)), width(I->getType())));
        break;
      case Instruction::Trunc:
        if (lfcast(s, I)) break;
        set(s, I, vextract(op(s, I->getOperand(0)), 0, width(I->getType())));
        break;
      case Instruction::PtrToInt:
      case Instruction::IntToPtr:
      case Instruction::BitCast:
      case Instruction::Freeze: {
        Val v = op(s, I->getOperand(0));
        unsigned w = width(I->getType());
        if (w && v.w < w) v = vzext(v, w);
        if (w && v.w > w) v = vextract(v, 0, w);
        set(s, I, v);
        break;
      }
      case Instruction::ExtractValue: {
        auto* x = cast<ExtractValueInst>(I);
        Val v = op(s, x->getAggregateOperand());
        for (unsigned i : x->indices()) {
          Val t = (*v.agg)[i];
          v = t;
        }
        set(s, I, v);
        break;
      }
      case Instruction::InsertValue: {
        auto* x = cast<InsertValueInst>(I);
        Val v = op(s, x->getAggregateOperand());
        Val e = op(s, x->getInsertedValueOperand());
        v = insert(v, x->getIndices(), 0, e);
        set(s, I, v);
        break;
      }
      case Instruction::Fence:
        break;
      case Instruction::AtomicRMW: {
        auto* r = cast<AtomicRMWInst>(I);
        unsigned w = width(r->getType()), n = w / 8;
        Val p = op(s, r->getPointerOperand()), v = op(s, r->getValOperand());
        Val old = load(s, p, n, w), nv;
        switch (r->getOperation()) {
          case AtomicRMWInst::Xchg: nv = v; break;
          case AtomicRMWInst::Add: nv = vadd(old, v); break;
          case AtomicRMWInst::Sub: nv = vsub(old, v); break;
          case AtomicRMWInst::And: nv = binop(s, Instruction::And, old, v); break;
          case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, old, v); break;
          case AtomicRMWInst::Xor: nv = binop(s, Instruction::Xor, old, v); break;
          default: throw PathEnd{"unmodelled atomicrmw"};
        }
        store(s, p, nv, n);
        set(s, I, old);
        break;
      }
      case Instruction::AtomicCmpXchg: {
        auto* r = cast<AtomicCmpXchgInst>(I);
        unsigned w = width(r->getCompareOperand()->getType()), n = w / 8;
        Val p = op(s, r->getPointerOperand());
        Val old = load(s, p, n, w);
        Val ok = veq(old, op(s, r->getCompareOperand()));
        bool b = choose(s, ok);
        if (b) store(s, p, op(s, r->getNewValOperand()), n);
        Val v;
        v.agg = std::make_shared<std::vector<Val>>();
        v.agg->push_back(old);
        v.agg->push_back(Val::C(b, 1));
        set(s, I, v);
        break;
      }
      case Instruction::Call: {
        auto* cb = cast<CallBase>(I);
        if (cb->isInlineAsm()) {
          auto* ia = cast<InlineAsm>(cb->getCalledOperand());
          StringRef a = ia->getAsmString();
          if (!a.trim().empty() && a.trim() != "pause" && a.trim() != "mfence") {
            note("inline assembly: " + a.str());
            throw PathEnd{"asm"};
          }
          break;
        }
        Function* callee = cb->getCalledFunction();
        if (!callee) {
          Val fp = op(s, cb->getCalledOperand());
          u64 a = concretise(s, fp);
          auto it = faddr.find(a);
          if (it == faddr.end()) memfail(s, "call through an invalid function pointer");
          callee = it->second;
        }
        if (callee->isIntrinsic()) {
          Val r;
          if (!intrinsic(s, callee, cb, r)) {
            note("unmodelled intrinsic " + callee->getName().str());
            throw PathEnd{"intrinsic"};
          }
          if (!cb->getType()->isVoidTy()) set(s, I, r);
          break;
        }
        if (callee->getName() == "vh_crash_run") {
          Val fp = op(s, cb->getArgOperand(0));
          Function* fn = faddr.at(fp.c);
          z3::expr v = Z->bv_const(("in" + std::to_string(s.inputs.size())).c_str(), 16);
          s.inputs.push_back(v);
          s.crashVar = std::make_shared<z3::expr>(z3::zext(v, 48));
          s.crashArmed = 1;
          s.crashCount = 0;
          push(s, fn, {op(s, cb->getArgOperand(1))}, cb);
          s.stack.back().crash = 1;
          return;
        }
        if (callee->getName() == "vh_spawn") {
          Function* fn = faddr.at(concretise(s, op(s, cb->getArgOperand(0))));
          Val arg = op(s, cb->getArgOperand(1));
          int id = ++s.nthreads;
          std::vector<Frame> mine;
          std::swap(mine, s.stack);
          push(s, fn, {arg}, nullptr);
          s.parked[id] = std::move(s.stack);
          s.stack = std::move(mine);
          set(s, I, Val::C(id, 32));
          break;
        }
        if (callee->getName() == "vh_done") {
          int id = (int)concretise(s, op(s, cb->getArgOperand(0)));
          set(s, I, Val::C(s.finished.count(id), 32));
          break;
        }
        if (callee->getName() == "vh_switch") {
          int id = (int)concretise(s, op(s, cb->getArgOperand(0)));
          if (id == s.cur) break;
          if (s.finished.count(id) || !s.parked.count(id)) {
            note("switch to a thread that does not exist");
            throw PathEnd{"switch"};
          }
          ++s.stack.back().it;
          s.parked[s.cur] = std::move(s.stack);
          s.stack = std::move(s.parked[id]);
          s.cur = id;
          return;
        }
        if (!callee->isDeclaration()) {
          std::vector<Val> args;
          for (auto& a : cb->args()) args.push_back(op(s, a.get()));
          push(s, callee, args, cb);
          return;
        }
        Val r;
        if (!builtin(s, callee, cb, r)) {
          note("call to unmodelled function " + callee->getName().str());
          throw PathEnd{"external"};
        }
        if (!cb->getType()->isVoidTy()) set(s, I, r);
        break;
      }
      default:
        if (I->isBinaryOp() && !I->getType()->isFloatingPointTy()) {
          set(s, I, binop(s, I->getOpcode(), op(s, I->getOperand(0)), op(s, I->getOperand(1))));
          break;
        }
        note(std::string("unmodelled instruction ") + I->getOpcodeName() + " at " + loc());
        throw PathEnd{"instruction"};
    }
    ++s.stack.back().it;
  }
  Val insert(const Val& v, ArrayRef<unsigned> ix, unsigned k, const Val& e) {
    if (k == ix.size()) return e;
    Val r = v;
    r.agg = std::make_shared<std::vector<Val>>(*v.agg);
    (*r.agg)[ix[k]] = insert((*v.agg)[ix[k]], ix, k + 1, e);
    return r;
  }
  Val loadT(State& s, const Val& p, Type* t) {
    if (t->isStructTy() || t->isArrayTy()) {
      Val v;
      v.agg = std::make_shared<std::vector<Val>>();
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
      for (unsigned i = 0; i < n; i++) {
        Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
        u64 off = t->isStructTy() ? (u64)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (u64)DL->getTypeAllocSize(et);
        v.agg->push_back(loadT(s, vadd(p, Val::C(off, 64)), et));
      }
      return v;
    }
    return load(s, p, DL->getTypeStoreSize(t), width(t));
  }
  void storeT(State& s, const Val& p, const Val& v, Type* t) {
    if (t->isStructTy() || t->isArrayTy()) {
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
      for (unsigned i = 0; i < n; i++) {
        Type* et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
        u64 off = t->isStructTy() ? (u64)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (u64)DL->getTypeAllocSize(et);
        storeT(s, vadd(p, Val::C(off, 64)), (*v.agg)[i], et);
      }
      return;
    }
    store(s, p, v, DL->getTypeStoreSize(t));
  }

  // -------- main loop

  void run() {
    z3::params p(*Z);
    S = new z3::solver(*Z);
    p.set("timeout", (unsigned)(qtimeout * 1000));
    S->set(p);
    work.push_back(init());
    while (!work.empty()) {
      if (now() - t0 > limit) {
        if (viols.size()) break;
        note("time limit reached with " + std::to_string(work.size()) + " paths left");
        break;
      }
      if (viols.size() >= maxviol) break;
      State* s = work.back();
      work.pop_back();
      cur = s;
      std::string why;
      u64 cnt = 0;
      try {
        for (;;) {
          try {
            step(*s);
          } catch (CrashNow&) {
            crashNow(*s);
          }
          if ((++cnt & 0xfff) == 0 && now() - t0 > limit) {
            if (!viols.size()) note("time limit reached inside a path");
            throw PathEnd{"limit"};
          }
        }
      } catch (PathEnd& e) {
        why = e.why;
      } catch (z3::exception& e) {
        note(std::string("solver error: ") + e.msg() + " at " + loc());
      }
      if (why == "done" || why == "exit") {
        paths++;
        if (samples.size() < 64) {
          samples.push_back(values(*s, *s->model));
          sampleMem.push_back(meminit(*s, *s->model));
        }
      } else if (why != "assume" && why != "memory" && why != "assert" && why != "div" && why != "abort" && why != "steps" && why != "trap") {
        note("path ended early: " + why + " at " + loc());
      }
      ended++;
      delete s;
    }
  }
};

static std::string esc(const std::string& s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') r += '\\';
    if ((unsigned char)c < 32) {
      r += ' ';
      continue;
    }
    r += c;
  }
  return r;
}
static void pmem(const std::vector<MemInit>& mem) {
  printf("[");
  for (size_t i = 0; i < mem.size(); i++) {
    printf("%s[%llu,%llu,\"", i ? "," : "", (unsigned long long)mem[i].arena, (unsigned long long)mem[i].off);
    for (unsigned b : mem[i].bytes) printf("%02x", b);
    printf("\"]");
  }
  printf("]");
}
static void pvals(const std::vector<u64>& v) {
  printf("[");
  for (size_t i = 0; i < v.size(); i++) printf("%s%llu", i ? "," : "", (unsigned long long)v[i]);
  printf("]");
}

static int instrument(Module& M, const char* out) {
  LLVMContext& C = M.getContext();
  Type* V = Type::getVoidTy(C);
  Type* P = PointerType::get(C, 0);
  Type* I64 = Type::getInt64Ty(C);
  Type* I32 = Type::getInt32Ty(C);
  FunctionCallee h = M.getOrInsertFunction("vh_hook_store", FunctionType::get(V, {P, I64, P, I32}, false));
  const DataLayout& DL = M.getDataLayout();
  for (auto& f : M) {
    if (f.isDeclaration() || f.getName().starts_with("vh_")) continue;
    std::vector<Instruction*> is;
    for (auto& i : instructions(f)) is.push_back(&i);
    for (auto* i : is) {
      IRBuilder<> B(i);
      Value* null = ConstantPointerNull::get(cast<PointerType>(P));
      auto K = [&](u64 k) { return ConstantInt::get(I32, k); };
      if (auto* st = dyn_cast<StoreInst>(i)) {
        B.CreateCall(h, {st->getPointerOperand(), ConstantInt::get(I64, DL.getTypeStoreSize(st->getValueOperand()->getType())), null, K(0)});
      } else if (auto* r = dyn_cast<AtomicRMWInst>(i)) {
        B.CreateCall(h, {r->getPointerOperand(), ConstantInt::get(I64, 8), null, K(0)});
      } else if (auto* x = dyn_cast<AtomicCmpXchgInst>(i)) {
        // Only a successful exchange counts as a store; test it first.
        Value* curv = B.CreateLoad(x->getCompareOperand()->getType(), x->getPointerOperand());
        Value* eq = B.CreateICmpEQ(curv, x->getCompareOperand());
        Value* p = B.CreateSelect(eq, x->getPointerOperand(), null);
        B.CreateCall(h, {p, ConstantInt::get(I64, 8), null, K(0)});
      } else if (auto* m = dyn_cast<MemCpyInst>(i)) {
        B.CreateCall(h, {m->getDest(), B.CreateZExt(m->getLength(), I64), m->getSource(), K(1)});
      } else if (auto* mm = dyn_cast<MemMoveInst>(i)) {
        B.CreateCall(h, {mm->getDest(), B.CreateZExt(mm->getLength(), I64), mm->getSource(), K(1)});
      } else if (auto* ms = dyn_cast<MemSetInst>(i)) {
        Value* b = B.CreateIntToPtr(B.CreateZExt(ms->getValue(), I64), P);
        B.CreateCall(h, {ms->getDest(), B.CreateZExt(ms->getLength(), I64), b, K(2)});
      } else if (auto* c = dyn_cast<CallInst>(i)) {
        Function* g = c->getCalledFunction();
        std::string n = g ? g->getName().str() : "";
        if (n == "memcpy" || n == "memmove") {
          B.CreateCall(h, {c->getArgOperand(0), c->getArgOperand(2), c->getArgOperand(1), K(1)});
        } else if (n == "memset") {
          Value* b = B.CreateIntToPtr(B.CreateZExt(c->getArgOperand(1), I64), P);
          B.CreateCall(h, {c->getArgOperand(0), c->getArgOperand(2), b, K(2)});
        }
      }
    }
  }
  std::error_code ec;
  raw_fd_ostream os(out, ec);
  if (ec) return 1;
  WriteBitcodeToFile(M, os);
  return 0;
}

int main(int argc, char** argv) {
  if (argc < 3) return 2;
  LLVMContext C;
  SMDiagnostic d;
  auto M = parseIRFile(argv[2], d, C);
  if (!M) {
    d.print("symex", errs());
    return 2;
  }
  if (!strcmp(argv[1], "instrument")) return instrument(*M, argv[3]);
  z3::context zc;
  Z = &zc;
  Engine* E = new Engine();
  E->M = M.get();
  E->DL = &M->getDataLayout();
  for (int i = 3; i + 1 < argc; i += 2) {
    if (!strcmp(argv[i], "--time")) E->limit = atof(argv[i + 1]);
    if (!strcmp(argv[i], "--grace")) E->grace = atof(argv[i + 1]);
    if (!strcmp(argv[i], "--linear")) E->useLin = keepRaw = atoi(argv[i + 1]);
    if (!strcmp(argv[i], "--query-time")) E->qtimeout = atof(argv[i + 1]);
    if (!strcmp(argv[i], "--steps")) E->maxsteps = strtoull(argv[i + 1], 0, 10);
  }
  E->run();
  if (E->slow) fprintf(stderr, "lin hit %llu %.1fs miss %llu %.1fs; bv sat %llu %.1fs unsat %.1fs\n", (unsigned long long)E->nHit, E->linHit, (unsigned long long)E->nMiss, E->linMiss, (unsigned long long)E->nSat, E->bvSat, E->bvUnsat);
  printf("{\"paths\":%llu,\"ended\":%llu,\"forks\":%llu,\"memory_checks\":%llu,\"instructions\":%llu,\"obligations\":%llu,\"discharged\":%llu,\"queries\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\n",
         (unsigned long long)E->paths, (unsigned long long)E->ended, (unsigned long long)E->forks, (unsigned long long)E->memchecks, (unsigned long long)E->instrs,
         (unsigned long long)E->obligations, (unsigned long long)E->discharged, (unsigned long long)E->queries, E->solver_s, now() - E->t0);
  printf("\"reach\":{");
  bool first = true;
  for (auto& r : E->reach) {
    printf("%s\"%s\":", first ? "" : ",", esc(r.first).c_str());
    pvals(r.second);
    first = false;
  }
  printf("},\n\"reach_mem\":{");
  first = true;
  for (auto& r : E->reachMem) {
    printf("%s\"%s\":", first ? "" : ",", esc(r.first).c_str());
    pmem(r.second);
    first = false;
  }
  printf("},\n\"violations\":[");
  first = true;
  for (auto& v : E->viols) {
    printf("%s{\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"vals\":", first ? "" : ",\n", esc(v.kind).c_str(), esc(v.msg).c_str(), esc(v.loc).c_str());
    pvals(v.vals);
    printf(",\"mem\":");
    pmem(v.mem);
    printf("}");
    first = false;
  }
  printf("],\n\"asserts\":[");
  first = true;
  for (auto& v : E->asserts) {
    printf("%s\"%s\"", first ? "" : ",", esc(v).c_str());
    first = false;
  }
  printf("],\n\"incomplete\":[");
  first = true;
  for (auto& v : E->incomplete) {
    printf("%s\"%s\"", first ? "" : ",", esc(v).c_str());
    first = false;
  }
  printf("],\n\"functions\":[");
  first = true;
  for (auto& v : E->funcs) {
    printf("%s\"%s\"", first ? "" : ",", esc(v).c_str());
    first = false;
  }
  printf("],\n\"samples\":[");
  for (size_t i = 0; i < E->samples.size(); i++) {
    if (i) printf(",");
    pvals(E->samples[i]);
  }
  printf("],\n\"sample_mem\":[");
  for (size_t i = 0; i < E->sampleMem.size(); i++) {
    if (i) printf(",");
    pmem(E->sampleMem[i]);
  }
  printf("]}\n");
  fflush(stdout);
  _Exit(0);
}
