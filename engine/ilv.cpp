// Turns thread functions in LLVM IR into a step machine in plain C for CBMC.
//
//   ilv mark  in.bc out.bc        marks everything the thread functions use for inlining
//   ilv emit  in.bc out.c out.bc  writes the step machine and the bitcode that replays it
//
// Thread bodies are vt_1 .. vt_n.  A thread gives way before every access to
// memory another thread can reach and before every system call, so any
// interleaving at that granularity is a sequence of steps.  vt_init, vt_check,
// vt_end and vt_died run without giving way.  Memory is a set of scalar
// cells with numeric addresses; accesses through computed addresses dispatch
// over the cells whose address escapes.
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
using std::string;

static Module* M;
static const DataLayout* DL;

[[noreturn]] static void fail(const string& s) {
  errs() << "ilv: " << s << "\n";
  exit(3);
}
static string str(Value* v) {
  string s;
  raw_string_ostream o(s);
  v->print(o);
  if (auto* i = dyn_cast<Instruction>(v)) {
    if (i->getDebugLoc()) o << " @" << i->getDebugLoc().getLine();
  }
  return s;
}

static const char* ROOTS[] = {"vt_1", "vt_2", "vt_3", "vt_4", "vt_init", "vt_check", "vt_end", "vt_died"};

// Calls through an unprototyped declaration become direct calls.
static void prototypes() {
  std::vector<CallInst*> todo;
  for (auto& f : *M)
    for (auto& b : f)
      for (auto& i : b)
        if (auto* c = dyn_cast<CallInst>(&i))
          if (!c->getCalledFunction() && isa<Function>(c->getCalledOperand()->stripPointerCasts())) todo.push_back(c);
  for (auto* c : todo) {
    auto* f = cast<Function>(c->getCalledOperand()->stripPointerCasts());
    auto* ft = f->getFunctionType();
    if (ft->isVarArg() || ft->getNumParams() != c->arg_size() || ft->getReturnType() != c->getType()) continue;
    std::vector<Value*> args(c->arg_begin(), c->arg_end());
    auto* n = CallInst::Create(ft, f, args, "", c);
    n->setDebugLoc(c->getDebugLoc());
    c->replaceAllUsesWith(n);
    c->eraseFromParent();
  }
}

static int cmd_mark() {
  prototypes();
  std::set<Function*> seen;
  std::vector<Function*> todo;
  for (auto* r : ROOTS)
    if (auto* f = M->getFunction(r)) {
      if (f->isDeclaration()) continue;
      seen.insert(f);
      todo.push_back(f);
    }
  std::set<Function*> roots(seen);
  while (!todo.empty()) {
    auto* f = todo.back();
    todo.pop_back();
    for (auto& b : *f)
      for (auto& i : b)
        if (auto* c = dyn_cast<CallBase>(&i))
          if (auto* g = c->getCalledFunction())
            if (!g->isDeclaration() && seen.insert(g).second) todo.push_back(g);
  }
  for (auto& f : *M) {
    if (f.isDeclaration()) continue;
    f.removeFnAttr(Attribute::NoInline);
    f.removeFnAttr(Attribute::OptimizeNone);
    if (roots.count(&f)) {
      f.addFnAttr(Attribute::NoInline);
    } else {
      f.addFnAttr(Attribute::AlwaysInline);
      f.setLinkage(GlobalValue::InternalLinkage);
    }
  }
  // What went into the encoding.
  for (auto* f : seen)
    if (!roots.count(f)) outs() << f->getName() << "\n";
  return 0;
}

// ---- memory
struct Cell {
  uint64_t addr, size;
  string name;
  uint64_t init;
};
struct Obj {
  Value* v;
  int thread;  // -1: shared
  uint64_t base, size;
  bool escapes, ghost;
  std::vector<Cell> cells;
  string label;
};
static std::vector<Obj> objs;
static std::map<std::pair<Value*, int>, int> objOf;
static std::map<Value*, uint64_t> constInit;
static uint64_t nextBase = 0x10000;

static string ctype(uint64_t sz) {
  return sz == 1 ? "uint8_t" : sz == 2 ? "uint16_t" : sz == 4 ? "uint32_t" : "uint64_t";
}
static bool escapes(Value* p, int depth = 0) {
  if (depth > 20) return true;
  for (auto* u : p->users()) {
    if (auto* l = dyn_cast<LoadInst>(u)) continue;
    if (auto* s = dyn_cast<StoreInst>(u)) {
      if (s->getValueOperand() == p) return true;
      continue;
    }
    if (auto* s = dyn_cast<AtomicRMWInst>(u)) {
      if (s->getValOperand() == p) return true;
      continue;
    }
    if (auto* s = dyn_cast<AtomicCmpXchgInst>(u)) {
      if (s->getPointerOperand() != p) return true;
      continue;
    }
    if (isa<ICmpInst>(u)) continue;
    if (auto* g = dyn_cast<GEPOperator>(u)) {
      if (!g->hasAllConstantIndices() || escapes(g, depth + 1)) return true;
      continue;
    }
    if (auto* i = dyn_cast<IntrinsicInst>(u)) {
      if (i->getIntrinsicID() == Intrinsic::threadlocal_address) {
        if (escapes(i, depth + 1)) return true;
        continue;
      }
      if (isa<MemIntrinsic>(i) || i->isLifetimeStartOrEnd() || isa<DbgInfoIntrinsic>(i)) continue;
    }
    return true;
  }
  return false;
}
static void flatten(Type* t, uint64_t off, std::vector<std::pair<uint64_t, uint64_t>>& out) {
  if (auto* s = dyn_cast<StructType>(t)) {
    auto* l = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) flatten(s->getElementType(i), off + l->getElementOffset(i), out);
  } else if (auto* a = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(a->getElementType());
    for (uint64_t i = 0; i < a->getNumElements(); i++) flatten(a->getElementType(), off + i * es, out);
  } else {
    out.push_back({off, DL->getTypeStoreSize(t)});
  }
}
static bool isGhost(Value* v) {
  auto* g = dyn_cast<GlobalVariable>(v);
  return g && g->hasSection() && g->getSection() == "ghost";
}
static int addObj(Value* v, Type* ty, int thread, string label) {
  auto key = std::make_pair(v, thread);
  auto it = objOf.find(key);
  if (it != objOf.end()) return it->second;
  Obj o;
  o.v = v;
  o.thread = thread;
  o.base = nextBase;
  o.size = DL->getTypeAllocSize(ty);
  if (o.size > 4096) fail("object too large: " + label);
  nextBase += (o.size + 63) / 64 * 64 + 64;
  o.escapes = v ? escapes(v) : false;
  o.ghost = v && isGhost(v);
  o.label = label;
  std::vector<std::pair<uint64_t, uint64_t>> fl;
  flatten(ty, 0, fl);
  for (auto& c : fl) {
    if (c.second > 8) fail("unsupported field size in " + label);
    o.cells.push_back({o.base + c.first, c.second, "m" + std::to_string(objs.size()) + "_" + std::to_string(c.first), 0});
  }
  objs.push_back(o);
  return objOf[key] = objs.size() - 1;
}
static Cell* cellAt(uint64_t a) {
  for (auto& o : objs)
    if (a >= o.base && a < o.base + o.size)
      for (auto& c : o.cells)
        if (a >= c.addr && a < c.addr + c.size) return &c;
  return nullptr;
}

// ---- pointers that only vt_init sets
//
// Reads of such a pointer by the threads are replaced by its value.  That the
// value is right after vt_init and that no computed store changes it is
// asserted in the encoding.
struct Frozen {
  GlobalVariable* g;
  uint64_t off;
  Constant* v;
};
static std::vector<Frozen> frozen;
static void freeze() {
  struct Acc {
    Instruction* i;
    uint64_t off, size;
  };
  std::map<GlobalVariable*, std::vector<Acc>> loads, stores;
  auto base = [&](Value* p, uint64_t& off) -> GlobalVariable* {
    APInt o(64, 0);
    auto* g = dyn_cast<GlobalVariable>(p->stripAndAccumulateConstantOffsets(*DL, o, true));
    off = o.getZExtValue();
    return g && !g->isThreadLocal() && !g->isConstant() && !(g->hasSection() && g->getSection() == "ghost") ? g : nullptr;
  };
  for (auto* r : ROOTS) {
    auto* f = M->getFunction(r);
    if (!f || f->isDeclaration()) continue;
    for (auto& b : *f)
      for (auto& i : b) {
        uint64_t off;
        if (auto* l = dyn_cast<LoadInst>(&i)) {
          if (auto* g = base(l->getPointerOperand(), off))
            if (l->getType()->isPointerTy()) loads[g].push_back({l, off, 8});
        } else if (auto* m = dyn_cast<MemIntrinsic>(&i)) {
          auto* n = dyn_cast<ConstantInt>(m->getLength());
          if (auto* g = base(m->getDest(), off)) stores[g].push_back({m, off, n ? n->getZExtValue() : ~0ull >> 1});
        } else if (auto* st = dyn_cast<StoreInst>(&i)) {
          if (auto* g = base(st->getPointerOperand(), off)) stores[g].push_back({st, off, DL->getTypeStoreSize(st->getValueOperand()->getType())});
        } else if (auto* x = dyn_cast<AtomicRMWInst>(&i)) {
          if (auto* g = base(x->getPointerOperand(), off)) stores[g].push_back({x, off, DL->getTypeStoreSize(x->getType())});
        } else if (auto* x = dyn_cast<AtomicCmpXchgInst>(&i)) {
          if (auto* g = base(x->getPointerOperand(), off)) stores[g].push_back({x, off, 8});
        }
      }
  }
  auto known = [&](Value* v) {
    auto* c = dyn_cast<Constant>(v);
    uint64_t off;
    return c && base(c, off) ? c : nullptr;
  };
  for (auto& p : loads)
    for (auto& l : p.second) {
      Constant* v = nullptr;
      bool ok = true;
      if (p.first->hasInitializer())
        if (auto* c = ConstantFoldLoadFromConst(p.first->getInitializer(), l.i->getType(), APInt(64, l.off), *DL)) v = known(c);
      for (auto& st : stores[p.first]) {
        if (st.off + st.size <= l.off || l.off + 8 <= st.off) continue;
        if (st.i->getFunction()->getName() != "vt_init") ok = false;
        auto* si = dyn_cast<StoreInst>(st.i);
        v = si && st.off == l.off ? known(si->getValueOperand()) : nullptr;
      }
      if (!ok || !v || l.i->getFunction()->getName() == "vt_init") continue;
      bool have = false;
      for (auto& f : frozen) have |= f.g == p.first && f.off == l.off;
      if (!have) frozen.push_back({p.first, l.off, v});
      l.i->replaceAllUsesWith(v);
    }
  for (auto& p : loads)
    for (auto& l : p.second)
      if (l.i->use_empty() && l.i->getFunction()->getName() != "vt_init") l.i->eraseFromParent();
}

// ---- emission of one function
struct Fn {
  Function* f;
  int t;  // thread number; 0 for functions that do not give way
  bool threaded;
  std::map<Value*, int> num;
  std::set<Value*> local;
  std::vector<Instruction*> yields;
  std::map<Instruction*, int> pcOf;
};
static Fn* F;
static raw_ostream* O;
static std::map<int, int> errnoObj;

static std::optional<uint64_t> constAddr(Value* v) {
  if (isa<ConstantPointerNull>(v)) return 0;
  if (auto* g = dyn_cast<GlobalVariable>(v)) {
    int th = g->isThreadLocal() ? F->t : -1;
    return objs[addObj(g, g->getValueType(), th, g->getName().str())].base;
  }
  if (auto* a = dyn_cast<AllocaInst>(v)) {
    if (!a->isStaticAlloca()) fail("dynamic alloca");
    return objs[addObj(a, a->getAllocatedType(), F->t, "local")].base;
  }
  if (auto* g = dyn_cast<GEPOperator>(v)) {
    APInt off(64, 0);
    if (!g->accumulateConstantOffset(*DL, off)) return {};
    auto b = constAddr(g->getPointerOperand());
    if (!b) return {};
    return *b + off.getSExtValue();
  }
  if (auto* i = dyn_cast<IntrinsicInst>(v))
    if (i->getIntrinsicID() == Intrinsic::threadlocal_address) return constAddr(i->getArgOperand(0));
  if (auto* c = dyn_cast<CallInst>(v))
    if (c->getCalledFunction() && c->getCalledFunction()->getName() == "__errno_location") return objs[errnoObj[F->t]].base;
  if (auto* b = dyn_cast<BitCastOperator>(v)) return constAddr(b->getOperand(0));
  return {};
}
static unsigned width(Type* t) {
  if (t->isPointerTy()) return 64;
  if (auto* i = dyn_cast<IntegerType>(t)) {
    if (i->getBitWidth() <= 64) return i->getBitWidth();
  }
  string s;
  raw_string_ostream o(s);
  t->print(o);
  fail("unsupported type " + s);
}
static uint64_t bytesOf(Type* t) { return (width(t) + 7) / 8; }
static string hex(uint64_t v) {
  char b[32];
  snprintf(b, sizeof b, "0x%llxull", (unsigned long long)v);
  return b;
}
static string nameOf(Value* v) {
  auto it = F->num.find(v);
  if (it == F->num.end()) fail("no name: " + str(v));
  return (F->local.count(v) ? "l" : "s" + std::to_string(F->t) + "_") + std::to_string(it->second);
}
static string val(Value* v) {
  if (auto* c = dyn_cast<ConstantInt>(v)) return hex(c->getZExtValue());
  if (isa<UndefValue>(v)) return "0";
  if (v->getType()->isPointerTy()) {
    if (auto a = constAddr(v)) return hex(*a);
    if (auto* c = dyn_cast<ConstantExpr>(v))
      if (c->getOpcode() == Instruction::IntToPtr) return val(c->getOperand(0));
    if (isa<Function>(v)) return "0x1ull";
  }
  if (auto* c = dyn_cast<ConstantExpr>(v))
    if (c->getOpcode() == Instruction::PtrToInt) return val(c->getOperand(0));
  return nameOf(v);
}
static string mask(string e, unsigned w) {
  if (w == 8) return "(uint8_t)(" + e + ")";
  if (w == 16) return "(uint16_t)(" + e + ")";
  if (w == 32) return "(uint32_t)(" + e + ")";
  if (w == 64) return "(uint64_t)(" + e + ")";
  return "((" + e + ") & " + hex((1ull << w) - 1) + ")";
}
static string sgn(string e, unsigned w) {
  if (w == 8 || w == 16 || w == 32 || w == 64) return "((int" + std::to_string(w) + "_t)(" + e + "))";
  return "(((int64_t)((uint64_t)(" + e + ") << " + std::to_string(64 - w) + ")) >> " + std::to_string(64 - w) + ")";
}
static string loadConst(uint64_t a, uint64_t sz) {
  Cell* c = cellAt(a);
  if (c && c->addr == a && c->size == sz) return c->name;
  if (c && a + sz <= c->addr + c->size) return "((" + ctype(sz) + ")(" + c->name + " >> " + std::to_string(8 * (a - c->addr)) + "))";
  string e = "0";
  for (uint64_t i = 0; i < sz;) {
    Cell* d = cellAt(a + i);
    if (!d) {
      i++;
      continue;
    }
    if (d->addr != a + i || i + d->size > sz) fail("overlapping access");
    e += " | ((uint64_t)" + d->name + " << " + std::to_string(8 * i) + ")";
    i += d->size;
  }
  return "((" + ctype(sz) + ")(" + e + "))";
}
static string storeConst(uint64_t a, uint64_t sz, string v) {
  Cell* c = cellAt(a);
  if (c && c->addr == a && c->size == sz) return c->name + " = " + v + ";";
  if (c && a + sz <= c->addr + c->size) {
    uint64_t m = (sz == 8 ? ~0ull : (1ull << (8 * sz)) - 1) << (8 * (a - c->addr));
    return c->name + " = (" + c->name + " & ~" + hex(m) + ") | (((uint64_t)(" + v + ") << " + std::to_string(8 * (a - c->addr)) + ") & " + hex(m) + ");";
  }
  string e;
  for (uint64_t i = 0; i < sz;) {
    Cell* d = cellAt(a + i);
    if (!d) {
      i++;
      continue;
    }
    if (d->addr != a + i || i + d->size > sz) fail("overlapping access");
    e += d->name + " = (" + ctype(d->size) + ")((uint64_t)(" + v + ") >> " + std::to_string(8 * i) + "); ";
    i += d->size;
  }
  return e;
}
static string loadE(Value* p, uint64_t sz) {
  if (auto a = constAddr(p)) return loadConst(*a, sz);
  return "ld" + std::to_string(sz) + "(" + val(p) + ")";
}
static string storeE(Value* p, uint64_t sz, string v) {
  if (auto a = constAddr(p)) return storeConst(*a, sz, v);
  return "st" + std::to_string(sz) + "(" + val(p) + ", " + v + ");";
}

static Value* pointerOf(Instruction* i) {
  if (auto* l = dyn_cast<LoadInst>(i)) return l->getPointerOperand();
  if (auto* s = dyn_cast<StoreInst>(i)) return s->getPointerOperand();
  if (auto* r = dyn_cast<AtomicRMWInst>(i)) return r->getPointerOperand();
  if (auto* c = dyn_cast<AtomicCmpXchgInst>(i)) return c->getPointerOperand();
  return nullptr;
}
static string calleeName(Instruction* i) {
  auto* c = dyn_cast<CallBase>(i);
  if (!c || !c->getCalledFunction()) return "";
  return c->getCalledFunction()->getName().str();
}
static std::set<std::pair<string, uint64_t>> quietFields;  // list links of a lock: guarded by its owner
static bool visible(Instruction* i) {
  string n = calleeName(i);
  if (n == "syscall" || n == "vh_yield_") return true;
  Value* p = pointerOf(i);
  if (!p) return false;
  if (auto* c = dyn_cast<CallBase>(p)) (void)c;
  Value* u = getUnderlyingObject(p, 0);
  if (isa<AllocaInst>(u)) return false;
  if (auto* in = dyn_cast<IntrinsicInst>(u))
    if (in->getIntrinsicID() == Intrinsic::threadlocal_address) return false;
  if (auto* g = dyn_cast<GlobalVariable>(u)) return !g->isThreadLocal() && !g->isConstant() && !isGhost(g);
  if (auto* c = dyn_cast<CallInst>(u))
    if (c->getCalledFunction() && c->getCalledFunction()->getName() == "__errno_location") return false;
  return true;
}

static void findYields() {
  Function& f = *F->f;
  std::set<Instruction*> ys;
  std::set<BasicBlock*> has;
  for (auto& b : f)
    for (auto& i : b)
      if (visible(&i)) {
        ys.insert(&i);
        has.insert(&b);
      }
  // Numbered so that only loops lead back to a smaller number.
  ReversePostOrderTraversal<Function*> rpo(&f);
  for (auto* b : rpo)
    for (auto& i : *b)
      if (ys.count(&i)) {
        F->yields.push_back(&i);
        F->pcOf[&i] = 2 * F->yields.size();  // pc+1 is the resumption after blocking
      }
}

static void number() {
  int n = 0;
  for (auto& b : *F->f)
    for (auto& i : b)
      if (!i.getType()->isVoidTy()) F->num[&i] = n++;
  for (auto& b : *F->f) {
    std::map<Instruction*, int> at, ycount;
    int y = 0;
    for (auto& i : b) {
      if (F->pcOf.count(&i)) y++;
      at[&i] = 0;
      ycount[&i] = y;  // yields at or before i
    }
    int ytotal = y;
    for (auto& i : b) {
      if (i.getType()->isVoidTy()) continue;
      bool loc = true;
      for (auto* u : i.users()) {
        auto* ui = cast<Instruction>(u);
        if (auto* p = dyn_cast<PHINode>(ui)) {
          for (unsigned k = 0; k < p->getNumIncomingValues(); k++)
            if (p->getIncomingValue(k) == &i && (p->getIncomingBlock(k) != &b || ytotal != ycount[&i])) loc = false;
          continue;
        }
        if (ui->getParent() != &b || ycount[ui] != ycount[&i]) loc = false;
      }
      if (!F->threaded || loc) F->local.insert(&i);
    }
  }
}

static void declTypes(Instruction* i, std::function<void(string, string)> fn) {
  string n = nameOf(i);
  if (auto* s = dyn_cast<StructType>(i->getType())) {
    for (unsigned k = 0; k < s->getNumElements(); k++) {
      unsigned w = width(s->getElementType(k));
      fn(ctype(w <= 8 ? 1 : w <= 16 ? 2 : w <= 32 ? 4 : 8), n + "_" + std::to_string(k));
    }
    return;
  }
  unsigned w = width(i->getType());
  fn(ctype(w <= 8 ? 1 : w <= 16 ? 2 : w <= 32 ? 4 : 8), n);
}
static bool skipped(Instruction* i) {
  if (isa<DbgInfoIntrinsic>(i)) return true;
  if (auto* in = dyn_cast<IntrinsicInst>(i)) {
    if (in->isLifetimeStartOrEnd() || in->isAssumeLikeIntrinsic()) return true;
    if (in->getIntrinsicID() == Intrinsic::threadlocal_address) return true;
  }
  if (isa<AllocaInst>(i) || isa<FenceInst>(i) || isa<PHINode>(i)) return true;
  if (calleeName(i) == "__errno_location") return true;
  if (i->getType()->isPointerTy() && isa<GetElementPtrInst>(i) && constAddr(i)) return true;
  return false;
}
static string message(Value* v) {
  v = v->stripPointerCasts();
  if (auto* g = dyn_cast<GlobalVariable>(v))
    if (g->hasInitializer())
      if (auto* a = dyn_cast<ConstantDataArray>(g->getInitializer()))
        if (a->isCString()) return a->getAsCString().str();
  return "?";
}

static std::map<BasicBlock*, int> blockNo;
// Assertions and witnesses set a bit each; main() judges them once at the end.
static std::vector<string> bads, seens;
static int flag(std::vector<string>& v, const string& s) {
  for (size_t k = 0; k < v.size(); k++)
    if (v[k] == s) return k;
  v.push_back(s);
  if (v.size() > 63) fail("too many assertions");
  return v.size() - 1;
}

static void emitCall(CallInst* c) {
  raw_ostream& o = *O;
  string n = calleeName(c);
  string lhs = c->getType()->isVoidTy() ? "" : nameOf(c) + " = ";
  auto arg = [&](int k) { return val(c->getArgOperand(k)); };
  if (auto* m = dyn_cast<MemSetInst>(c)) {
    auto a = constAddr(m->getDest());
    auto* len = dyn_cast<ConstantInt>(m->getLength());
    auto* v = dyn_cast<ConstantInt>(m->getValue());
    if (!a || !len || !v) fail("memset: " + str(c));
    uint64_t b = v->getZExtValue() & 0xff, all = b * 0x0101010101010101ull;
    for (uint64_t i = 0; i < len->getZExtValue();) {
      Cell* d = cellAt(*a + i);
      if (!d) {
        i++;
        continue;
      }
      if (d->addr != *a + i || i + d->size > len->getZExtValue()) fail("memset splits a field");
      o << "  " << d->name << " = (" << ctype(d->size) << ")" << hex(all) << ";\n";
      i += d->size;
    }
    return;
  }
  if (auto* m = dyn_cast<MemTransferInst>(c)) {
    auto a = constAddr(m->getDest()), s = constAddr(m->getSource());
    auto* len = dyn_cast<ConstantInt>(m->getLength());
    if (!a || !s || !len) fail("memcpy: " + str(c));
    for (uint64_t i = 0; i < len->getZExtValue();) {
      Cell* d = cellAt(*a + i);
      if (!d) {
        i++;
        continue;
      }
      if (d->addr != *a + i || i + d->size > len->getZExtValue()) fail("memcpy splits a field");
      o << "  " << d->name << " = " << loadConst(*s + i, d->size) << ";\n";
      i += d->size;
    }
    return;
  }
  if (n == "vh_assert_") {
    o << "  if (!(" << arg(0) << ")) il_bad |= " << hex(1ull << flag(bads, message(c->getArgOperand(1)))) << ";\n";
  } else if (n == "vh_assume_") {
    o << "  vh_assume(" << arg(0) << ");\n";
  } else if (n == "vh_reach_") {
    o << "  il_seen |= " << hex(1ull << flag(seens, message(c->getArgOperand(0)))) << ";\n";
  } else if (n == "vh_sym") {
    unsigned w = cast<ConstantInt>(c->getArgOperand(0))->getZExtValue();
    o << "  " << lhs << mask("vh_u64()", w) << ";\n";
  } else if (n == "vh_concrete") {
    o << "  " << lhs << arg(0) << ";\n";
  } else if (n == "vh_self") {
    o << "  " << lhs << F->t << ";\n";
  } else if (n.compare(0, 3, "il_") == 0) {
    o << "  " << lhs << n << "(";
    for (unsigned k = 0; k < c->arg_size(); k++) o << (k ? ", " : "") << arg(k);
    o << ");\n";
  } else if (n == "vh_yield_") {
  } else if (n.compare(0, 11, "llvm.expect") == 0) {
    o << "  " << lhs << arg(0) << ";\n";
  } else if (n.compare(0, 9, "llvm.smax") == 0 || n.compare(0, 9, "llvm.smin") == 0) {
    unsigned w = width(c->getType());
    o << "  " << lhs << sgn(arg(0), w) << (n[8] == 'x' ? " > " : " < ") << sgn(arg(1), w) << " ? " << arg(0) << " : " << arg(1) << ";\n";
  } else if (n.compare(0, 9, "llvm.umax") == 0 || n.compare(0, 9, "llvm.umin") == 0) {
    o << "  " << lhs << arg(0) << (n[8] == 'x' ? " > " : " < ") << arg(1) << " ? " << arg(0) << " : " << arg(1) << ";\n";
  } else if (n.compare(0, 8, "llvm.abs") == 0) {
    unsigned w = width(c->getType());
    o << "  " << lhs << mask(sgn(arg(0), w) + " < 0 ? -(uint64_t)" + arg(0) + " : (uint64_t)" + arg(0), w) << ";\n";
  } else if (n.find("add.with.overflow") != string::npos || n.find("sub.with.overflow") != string::npos) {
    unsigned w = width(c->getArgOperand(0)->getType());
    bool sg = n[5] == 's', sub = n.find("sub.with") != string::npos;
    string x = arg(0), y = arg(1), r = nameOf(c) + "_0";
    o << "  " << r << " = " << mask("(uint64_t)" + x + (sub ? " - " : " + ") + "(uint64_t)" + y, w) << ";\n";
    o << "  " << nameOf(c) << "_1 = ";
    if (sg) {
      string lt = sgn(r, w) + " < " + sgn(x, w), gt = sgn(r, w) + " > " + sgn(x, w);
      o << sgn(y, w) << " >= 0 ? " << (sub ? gt : lt) << " : " << (sub ? lt : gt) << ";\n";
    } else {
      o << (sub ? x + " < " + y : r + " < " + x) << ";\n";
    }
  } else {
    fail("unmodelled call " + n + ": " + str(c));
  }
}
// The system call itself; the caller emits what follows.
static void emitSyscall(CallInst* c, int pc) {
  raw_ostream& o = *O;
  o << "  k_syscall(" << F->t;
  for (unsigned k = 0; k < 7; k++) {
    o << ", ";
    if (k < c->arg_size()) {
      Value* v = c->getArgOperand(k);
      unsigned w = width(v->getType());
      if (w < 64)
        o << "(uint64_t)(int64_t)" << sgn(val(v), w);
      else
        o << val(v);
    } else {
      o << "0";
    }
  }
  o << ");\n";
  if (pc >= 0) o << "  if (k_st[" << F->t << "] != K_RUN) { pc" << F->t << " = " << pc + 1 << "; return; }\n";
}
static void emitSysResult(CallInst* c) {
  raw_ostream& o = *O;
  int t = F->t;
  string e = objs[errnoObj[t]].cells[0].name;
  o << "  if (k_err[" << t << "]) " << e << " = k_err[" << t << "];\n";
  o << "  " << nameOf(c) << " = k_err[" << t << "] ? (uint64_t)-1 : k_ret[" << t << "];\n";
}

static void emitInst(Instruction* i) {
  raw_ostream& o = *O;
  if (skipped(i)) return;
  string lhs = i->getType()->isVoidTy() ? "" : "  " + (isa<StructType>(i->getType()) ? string() : nameOf(i) + " = ");
  if (auto* b = dyn_cast<BinaryOperator>(i)) {
    unsigned w = width(b->getType());
    string x = "(uint64_t)" + val(b->getOperand(0)), y = "(uint64_t)" + val(b->getOperand(1)), e;
    string sx = "(int64_t)" + sgn(val(b->getOperand(0)), w), sy = "(int64_t)" + sgn(val(b->getOperand(1)), w);
    switch (b->getOpcode()) {
      case Instruction::Add: e = x + " + " + y; break;
      case Instruction::Sub: e = x + " - " + y; break;
      case Instruction::Mul: e = x + " * " + y; break;
      case Instruction::UDiv: e = x + " / " + y; break;
      case Instruction::URem: e = x + " % " + y; break;
      case Instruction::SDiv: e = sx + " / " + sy; break;
      case Instruction::SRem: e = sx + " % " + sy; break;
      case Instruction::And: e = x + " & " + y; break;
      case Instruction::Or: e = x + " | " + y; break;
      case Instruction::Xor: e = x + " ^ " + y; break;
      case Instruction::Shl: e = x + " << (" + y + ")"; break;
      case Instruction::LShr: e = x + " >> (" + y + ")"; break;
      case Instruction::AShr: e = sx + " >> (" + y + ")"; break;
      default: fail("binary operator: " + str(i));
    }
    o << lhs << mask(e, w) << ";\n";
  } else if (auto* c = dyn_cast<ICmpInst>(i)) {
    unsigned w = width(c->getOperand(0)->getType());
    string x = val(c->getOperand(0)), y = val(c->getOperand(1));
    if (c->isSigned()) x = sgn(x, w), y = sgn(y, w);
    const char* op;
    switch (c->getPredicate()) {
      case CmpInst::ICMP_EQ: op = "=="; break;
      case CmpInst::ICMP_NE: op = "!="; break;
      case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: op = ">"; break;
      case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: op = ">="; break;
      case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: op = "<"; break;
      default: op = "<=";
    }
    o << lhs << x << " " << op << " " << y << ";\n";
  } else if (auto* s = dyn_cast<SelectInst>(i)) {
    o << lhs << val(s->getCondition()) << " ? " << val(s->getTrueValue()) << " : " << val(s->getFalseValue()) << ";\n";
  } else if (isa<ZExtInst>(i) || isa<PtrToIntInst>(i) || isa<IntToPtrInst>(i) || isa<BitCastInst>(i) || isa<TruncInst>(i) || isa<FreezeInst>(i)) {
    o << lhs << mask(val(i->getOperand(0)), width(i->getType())) << ";\n";
  } else if (isa<SExtInst>(i)) {
    o << lhs << mask("(int64_t)" + sgn(val(i->getOperand(0)), width(i->getOperand(0)->getType())), width(i->getType())) << ";\n";
  } else if (auto* g = dyn_cast<GetElementPtrInst>(i)) {
    unsigned bits = 64;
    MapVector<Value*, APInt> vars;
    APInt off(bits, 0);
    if (!g->collectOffset(*DL, bits, vars, off)) fail("gep: " + str(i));
    string e = val(g->getPointerOperand()) + " + " + hex(off.getZExtValue());
    for (auto& p : vars) e += " + (uint64_t)(int64_t)" + sgn(val(p.first), width(p.first->getType())) + " * " + hex(p.second.getZExtValue());
    o << lhs << e << ";\n";
  } else if (auto* l = dyn_cast<LoadInst>(i)) {
    unsigned w = width(l->getType());
    o << lhs << (w == 1 ? "(" : "(") << loadE(l->getPointerOperand(), bytesOf(l->getType())) << ")" << (w == 1 ? " & 1" : "") << ";\n";
  } else if (auto* s = dyn_cast<StoreInst>(i)) {
    o << "  " << storeE(s->getPointerOperand(), bytesOf(s->getValueOperand()->getType()), val(s->getValueOperand())) << "\n";
  } else if (auto* c = dyn_cast<AtomicCmpXchgInst>(i)) {
    string n = nameOf(c);
    uint64_t sz = bytesOf(c->getNewValOperand()->getType());
    o << "  " << n << "_0 = " << loadE(c->getPointerOperand(), sz) << ";\n";
    o << "  " << n << "_1 = " << n << "_0 == " << val(c->getCompareOperand()) << ";\n";
    o << "  if (" << n << "_1) { " << storeE(c->getPointerOperand(), sz, val(c->getNewValOperand())) << " }\n";
  } else if (auto* r = dyn_cast<AtomicRMWInst>(i)) {
    string n = nameOf(r), v = val(r->getValOperand());
    uint64_t sz = bytesOf(r->getType());
    o << "  " << n << " = " << loadE(r->getPointerOperand(), sz) << ";\n";
    string e;
    switch (r->getOperation()) {
      case AtomicRMWInst::Add: e = n + " + " + v; break;
      case AtomicRMWInst::Sub: e = n + " - " + v; break;
      case AtomicRMWInst::And: e = n + " & " + v; break;
      case AtomicRMWInst::Or: e = n + " | " + v; break;
      case AtomicRMWInst::Xor: e = n + " ^ " + v; break;
      case AtomicRMWInst::Xchg: e = v; break;
      default: fail("atomic: " + str(i));
    }
    o << "  " << storeE(r->getPointerOperand(), sz, mask(e, sz * 8)) << "\n";
  } else if (auto* x = dyn_cast<ExtractValueInst>(i)) {
    o << lhs << nameOf(x->getAggregateOperand()) << "_" << x->getIndices()[0] << ";\n";
  } else if (auto* c = dyn_cast<CallInst>(i)) {
    emitCall(c);
  } else {
    fail("unsupported instruction: " + str(i));
  }
}

static void emitEdge(BasicBlock* from, BasicBlock* to) {
  raw_ostream& o = *O;
  o << "{ ";
  std::vector<std::pair<string, string>> mv;
  for (auto& p : to->phis()) {
    Value* v = p.getIncomingValueForBlock(from);
    if (isa<UndefValue>(v)) continue;
    mv.push_back({nameOf(&p), val(v)});
  }
  if (mv.size() == 1) {
    o << mv[0].first << " = " << mv[0].second << "; ";
  } else {
    for (size_t k = 0; k < mv.size(); k++) o << "uint64_t x" << k << " = " << mv[k].second << "; ";
    for (size_t k = 0; k < mv.size(); k++) o << mv[k].first << " = x" << k << "; ";
  }
  o << "goto b" << blockNo[to] << "; }\n";
}

// Emits from `it` to the end of its block or the next place to give way.
static void emitRun(BasicBlock* b, BasicBlock::iterator it, bool first, std::set<BasicBlock*>& need) {
  raw_ostream& o = *O;
  for (; it != b->end(); ++it) {
    Instruction* i = &*it;
    if (!first && F->pcOf.count(i)) {
      o << "  pc" << F->t << " = " << F->pcOf[i] << "; return;\n";
      return;
    }
    bool mine = first;
    first = false;
    if (auto* c = dyn_cast<CallInst>(i)) {
      if (calleeName(c) == "syscall") {
        if (!F->threaded) {
          emitSyscall(c, -1);
          emitSysResult(c);
          continue;
        }
        emitSyscall(c, F->pcOf[i]);
        emitSysResult(c);
        continue;
      }
    }
    (void)mine;
    if (auto* br = dyn_cast<BranchInst>(i)) {
      if (br->isConditional()) {
        o << "  if (" << val(br->getCondition()) << ") ";
        emitEdge(b, br->getSuccessor(0));
        need.insert(br->getSuccessor(0));
        o << "  else ";
        emitEdge(b, br->getSuccessor(1));
        need.insert(br->getSuccessor(1));
      } else {
        o << "  ";
        emitEdge(b, br->getSuccessor(0));
        need.insert(br->getSuccessor(0));
      }
      return;
    }
    if (auto* sw = dyn_cast<SwitchInst>(i)) {
      for (auto& cs : sw->cases()) {
        o << "  if (" << val(sw->getCondition()) << " == " << hex(cs.getCaseValue()->getZExtValue()) << ") ";
        emitEdge(b, cs.getCaseSuccessor());
        need.insert(cs.getCaseSuccessor());
      }
      o << "  ";
      emitEdge(b, sw->getDefaultDest());
      need.insert(sw->getDefaultDest());
      return;
    }
    if (isa<ReturnInst>(i)) {
      if (F->threaded) o << "  il_done_[" << F->t << "] = 1; pc" << F->t << " = 1;\n";
      o << "  return;\n";
      return;
    }
    if (isa<UnreachableInst>(i)) {
      o << "  vh_assume(0);\n  return;\n";
      return;
    }
    emitInst(i);
  }
}

static void emitSegment(string name, BasicBlock* b, BasicBlock::iterator it, bool first, CallInst* resume) {
  raw_ostream& o = *O;
  string body;
  raw_string_ostream bo(body);
  O = &bo;
  std::set<BasicBlock*> need, have;
  if (resume) {
    emitSysResult(resume);
    ++it;
    emitRun(b, it, false, need);
  } else {
    emitRun(b, it, first, need);
  }
  // Blocks reached without giving way, in layout order where possible.
  while (true) {
    BasicBlock* nx = nullptr;
    for (auto& x : *F->f)
      if (need.count(&x) && !have.count(&x)) {
        nx = &x;
        break;
      }
    if (!nx) break;
    have.insert(nx);
    bo << " b" << blockNo[nx] << ":;\n";
    emitRun(nx, nx->getFirstNonPHI()->getIterator(), false, need);
  }
  bo.flush();
  O = &o;
  o << "static void " << name << "(void) {\n";
  std::set<string> decl;
  for (auto& x : *F->f)
    for (auto& i : x)
      if (!i.getType()->isVoidTy() && F->local.count(&i) && !(skipped(&i) && !isa<PHINode>(&i)))
        declTypes(&i, [&](string ty, string n) {
          // only what the body mentions
          size_t p = 0;
          bool used = false;
          while ((p = body.find(n, p)) != string::npos) {
            size_t e = p + n.size();
            bool l = p == 0 || !(isalnum(body[p - 1]) || body[p - 1] == '_');
            bool r = e >= body.size() || !(isalnum(body[e]) || body[e] == '_');
            if (l && r) {
              used = true;
              break;
            }
            p = e;
          }
          if (used) o << "  " << ty << " " << n << ";\n";
        });
  o << body << "}\n";
}

static uint64_t initOf(Constant* c, Type* t, uint64_t off, uint64_t sz) {
  // value of the scalar at byte offset `off`
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || c->isNullValue()) return 0;
  if (auto* ci = dyn_cast<ConstantInt>(c)) return ci->getZExtValue();
  if (auto* s = dyn_cast<StructType>(t)) {
    auto* l = DL->getStructLayout(s);
    unsigned k = l->getElementContainingOffset(off);
    return initOf(c->getAggregateElement(k), s->getElementType(k), off - l->getElementOffset(k), sz);
  }
  if (auto* a = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(a->getElementType());
    return initOf(c->getAggregateElement(off / es), a->getElementType(), off % es, sz);
  }
  if (c->getType()->isPointerTy()) {
    if (auto a = constAddr(c)) return *a;
    return 1;
  }
  fail("initializer");
}

int main(int argc, char** argv) {
  if (argc < 4) return 2;
  LLVMContext cx;
  SMDiagnostic err;
  auto m = parseIRFile(argv[2], err, cx);
  if (!m) fail("cannot read " + string(argv[2]));
  M = m.get();
  DL = &M->getDataLayout();
  if (string(argv[1]) == "mark") {
    cmd_mark();
    std::error_code ec;
    raw_fd_ostream o(argv[3], ec);
    WriteBitcodeToFile(*M, o);
    return 0;
  }
  freeze();
  int nt = 0;
  std::vector<Fn> fns;
  for (auto* r : ROOTS) {
    auto* f = M->getFunction(r);
    if (!f || f->isDeclaration()) continue;
    Fn x;
    x.f = f;
    x.threaded = isdigit(r[3]);
    x.t = x.threaded ? r[3] - '0' : 0;
    if (x.threaded) nt = std::max(nt, x.t);
    fns.push_back(x);
  }
  for (int t = 0; t <= nt; t++) {
    errnoObj[t] = addObj(nullptr, Type::getInt32Ty(cx), t + 100, "errno");
  }
  for (auto& f : fns) {
    F = &f;
    if (f.threaded) findYields();
    number();
  }
  // Bodies first, so that all the memory is known.
  string text;
  raw_string_ostream to(text);
  O = &to;
  for (auto& f : fns) {
    F = &f;
    blockNo.clear();
    int n = 0;
    for (auto& b : *f.f) blockNo[&b] = n++;
    if (!f.threaded) {
      emitSegment("il_" + f.f->getName().str(), &f.f->getEntryBlock(), f.f->getEntryBlock().begin(), false, nullptr);
      continue;
    }
    string T = std::to_string(f.t);
    to << "static unsigned pc" << T << ";\n";
    for (auto& b : *f.f)
      for (auto& i : b)
        if (!i.getType()->isVoidTy() && !f.local.count(&i) && !(skipped(&i) && !isa<PHINode>(&i)))
          declTypes(&i, [&](string ty, string n) { to << "static " << ty << " " << n << ";\n"; });
    emitSegment("t" + T + "_0", &f.f->getEntryBlock(), f.f->getEntryBlock().begin(), false, nullptr);
    for (auto* y : f.yields) {
      int pc = f.pcOf[y];
      emitSegment("t" + T + "_" + std::to_string(pc), y->getParent(), y->getIterator(), true, nullptr);
      if (calleeName(y) == "syscall") emitSegment("t" + T + "_" + std::to_string(pc + 1), y->getParent(), y->getIterator(), true, cast<CallInst>(y));
    }
    to << "#define MAXPC" << T << " " << 2 * f.yields.size() + 2 << "\n";
    to << "static void il_run" << T << "(unsigned stop) {\n";
    for (auto* y : f.yields) {
      int pc = f.pcOf[y];
      to << "  if (pc" << T << " == " << pc << " && " << pc << " < stop && k_st[" << T << "] == K_RUN) t" << T << "_" << pc << "();";
      if (y->getDebugLoc()) {
        auto* sp = dyn_cast<DIScope>(y->getDebugLoc().getScope());
        to << "  // " << (sp ? sp->getFilename() : "") << ":" << y->getDebugLoc().getLine();
      }
      to << "\n";
      if (calleeName(y) == "syscall")
        to << "  if (pc" << T << " == " << pc + 1 << " && " << pc + 1 << " < stop && k_st[" << T << "] == K_RUN) t" << T << "_" << pc + 1 << "();\n";
    }
    to << "}\n";
  }
  to.flush();
  std::error_code ec;
  raw_fd_ostream out(argv[3], ec);
  out << "#define NT " << nt << "\n#include \"il_kernel.h\"\n";
  for (size_t k = 0; k < objs.size(); k++) {
    Obj& o = objs[k];
    auto* g = o.v ? dyn_cast<GlobalVariable>(o.v) : nullptr;
    if (g && g->hasInitializer()) {
      Fn dummy;
      dummy.t = o.thread >= 0 ? o.thread : 0;
      F = &dummy;
      for (size_t c = 0; c < objs[k].cells.size(); c++) {
        uint64_t v = initOf(g->getInitializer(), g->getValueType(), objs[k].cells[c].addr - objs[k].base, objs[k].cells[c].size);
        objs[k].cells[c].init = v;
      }
    }
    for (auto& c : objs[k].cells) out << "static " << ctype(c.size) << " " << c.name << " = " << hex(c.init) << ";  // " << objs[k].label << (objs[k].thread >= 0 ? "#" + std::to_string(objs[k].thread) : "") << " " << hex(c.addr) << "\n";
  }
  std::map<uint64_t, uint64_t> fixed;
  for (auto& f : frozen) {
    Fn dummy;
    dummy.t = 0;
    F = &dummy;
    fixed[*constAddr(f.g) + f.off] = *constAddr(f.v);
  }
  for (int sz : {1, 2, 4, 8}) {
    out << "static " << ctype(sz) << " ld" << sz << "(uint64_t a) {\n  switch (a) {\n";
    for (auto& o : objs)
      if (o.escapes)
        for (auto& c : o.cells)
          if ((int)c.size == sz) {
            out << "    case " << hex(c.addr) << ": return " << c.name << ";\n";
          } else if (sz == 4 && c.size == 8 && o.thread < 0 && !fixed.count(c.addr)) {  // the kernel looks at half a counter
            out << "    case " << hex(c.addr) << ": return (uint32_t)" << c.name << ";\n";
          }
    out << "  }\n  vh_assert(0, \"every access is to a known object\");\n  vh_assume(0);\n  return 0;\n}\n";
    out << "static void st" << sz << "(uint64_t a, " << ctype(sz) << " v) {\n  switch (a) {\n";
    for (auto& o : objs)
      if (o.escapes)
        for (auto& c : o.cells)
          if ((int)c.size == sz) {
            out << "    case " << hex(c.addr) << ": " << c.name << " = v; ";
            if (fixed.count(c.addr)) out << "vh_assert(v == " << hex(fixed[c.addr]) << ", \"a pointer set up at the start stays\"); ";
            out << "return;\n";
          }
    out << "  }\n  vh_assert(0, \"every access is to a known object\");\n  vh_assume(0);\n}\n";
  }
  out << text;
  out << "static void il_start(int t) {\n";
  for (int t = 1; t <= nt; t++) out << "  if (t == " << t << ") { t" << t << "_0(); return; }\n";
  out << "}\nstatic void il_run(int t, unsigned stop) {\n";
  for (int t = 1; t <= nt; t++) out << "  if (t == " << t << ") { il_run" << t << "(stop); return; }\n";
  out << "}\nstatic unsigned il_maxpc(int t) {\n  return 0";
  for (int t = 1; t <= nt; t++) out << " + (t == " << t << ") * MAXPC" << t;
  out << ";\n}\n";
  for (auto* r : {"vt_init", "vt_check", "vt_end", "vt_died"}) {
    bool have = false;
    for (auto& f : fns) have |= f.f->getName() == r;
    if (!have) out << "static void il_" << r << "(void) {}\n";
  }
  out << "static void il_frozen(void) {\n";
  for (auto& f : fixed)
    if (auto* c = cellAt(f.first)) out << "  vh_assert(" << c->name << " == " << hex(f.second) << ", \"pointers are set up at the start\");\n";
  out << "}\nstatic void il_judge(void) {\n";
  for (size_t k = 0; k < bads.size(); k++) out << "  vh_assert(!(il_bad & " << hex(1ull << k) << "), \"" << bads[k] << "\");\n";
  for (size_t k = 0; k < seens.size(); k++) out << "  if (il_seen & " << hex(1ull << k) << ") vh_reach(\"" << seens[k] << "\");\n";
  out << "}\n#include \"il_main.h\"\n";

  // The same bodies with explicit calls to give way, for replay.
  if (argc > 4) {
    auto* vt = Type::getVoidTy(cx);
    auto yf = M->getOrInsertFunction("il_native_yield", vt, Type::getInt32Ty(cx));
    auto ef = M->getOrInsertFunction("il_native_errno", PointerType::get(cx, 0));
    std::map<std::pair<GlobalVariable*, int>, GlobalVariable*> tls;
    for (auto& f : fns) {
      if (f.threaded)
        for (auto* y : f.yields) CallInst::Create(yf, {ConstantInt::get(Type::getInt32Ty(cx), f.pcOf[y])}, "", y);
      std::vector<Instruction*> del;
      for (auto& b : *f.f)
        for (auto& i : b) {
          if (auto* in = dyn_cast<IntrinsicInst>(&i))
            if (in->getIntrinsicID() == Intrinsic::threadlocal_address) {
              auto* g = cast<GlobalVariable>(in->getArgOperand(0));
              auto*& c = tls[{g, f.t}];
              if (!c) {
                c = new GlobalVariable(*M, g->getValueType(), false, GlobalValue::InternalLinkage, g->hasInitializer() ? g->getInitializer() : Constant::getNullValue(g->getValueType()), g->getName() + "." + std::to_string(f.t));
              }
              in->replaceAllUsesWith(c);
              del.push_back(in);
            }
          if (auto* c = dyn_cast<CallInst>(&i)) {
            if (calleeName(c) == "vh_self") {
              c->replaceAllUsesWith(ConstantInt::get(c->getType(), f.t));
              del.push_back(c);
            } else if (calleeName(c) == "vh_yield_") {
              del.push_back(c);
            } else if (calleeName(c) == "__errno_location") {
              c->setCalledFunction(ef);
            }
          }
        }
      for (auto* d : del) d->eraseFromParent();
    }
    raw_fd_ostream o2(argv[4], ec);
    WriteBitcodeToFile(*M, o2);
  }
  // Summary for the evidence.
  size_t ny = 0, ni = 0;
  for (auto& f : fns) {
    ny += f.yields.size();
    for (auto& b : *f.f) ni += b.size();
  }
  outs() << "{\"threads\": " << nt << ", \"switch_points\": " << ny << ", \"instructions\": " << ni << "}\n";
  return 0;
}
