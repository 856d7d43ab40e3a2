// sx: a symbolic executor for LLVM bitcode (see DESIGN.md).
//   sx prog.bc --entry f --out DIR [--workers N] [--time S] [--steps N] ...
#include "solver.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <atomic>
#include <deque>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

using namespace sx;
using llvm::cast;
using llvm::dyn_cast;
using llvm::isa;

static const unsigned ASHIFT = 26;
static inline u64 idOf(u64 a) { return a >> ASHIFT; }
static inline u64 offOf(u64 a) { return a & ((1ull << ASHIFT) - 1); }

// ---------------------------------------------------------------- memory
struct MemObj {
  int rc = 1;
  u64 size = 0;
  char kind = 'h'; // h heap, s stack, g global, f function, e exception
  bool ro = false;
  uint8_t *data = nullptr;
  uint8_t *init = nullptr; // null: all initialised
  Expr **sym = nullptr;    // null: all concrete
};
static MemObj *newObj(u64 size, char kind, bool initd) {
  MemObj *o = new MemObj;
  o->size = size;
  o->kind = kind;
  o->data = (uint8_t *)calloc(size ? size : 1, 1);
  if (!initd) o->init = (uint8_t *)calloc(size ? size : 1, 1);
  return o;
}
static void freeObj(MemObj *o) {
  free(o->data);
  free(o->init);
  free(o->sym);
  delete o;
}
static inline void decObj(MemObj *o) {
  if (o && --o->rc == 0) freeObj(o);
}
static MemObj *cloneObj(MemObj *s) {
  MemObj *o = new MemObj;
  o->size = s->size;
  o->kind = s->kind;
  o->ro = s->ro;
  u64 n = s->size ? s->size : 1;
  o->data = (uint8_t *)malloc(n);
  memcpy(o->data, s->data, n);
  if (s->init) {
    o->init = (uint8_t *)malloc(n);
    memcpy(o->init, s->init, n);
  }
  if (s->sym) {
    o->sym = (Expr **)malloc(n * sizeof(Expr *));
    memcpy(o->sym, s->sym, n * sizeof(Expr *));
  }
  return o;
}
static const int CH = 64;
struct Chunk {
  int rc = 1;
  int live = 0;
  MemObj *o[CH];
  Chunk() { memset(o, 0, sizeof o); }
};
struct Mem {
  std::vector<Chunk *> ch;
  u64 next = 1;
  Mem() {}
  Mem(const Mem &m) : ch(m.ch), next(m.next) {
    for (auto c : ch)
      if (c) c->rc++;
  }
  Mem &operator=(const Mem &) = delete;
  ~Mem() {
    for (auto c : ch) dec(c);
  }
  static void dec(Chunk *c) {
    if (c && --c->rc == 0) {
      for (int i = 0; i < CH; i++) decObj(c->o[i]);
      delete c;
    }
  }
  Chunk *own(u64 ci) {
    if (ci >= ch.size()) ch.resize(ci + 1, nullptr);
    Chunk *&c = ch[ci];
    if (!c) c = new Chunk;
    else if (c->rc > 1) {
      Chunk *n = new Chunk;
      memcpy(n->o, c->o, sizeof n->o);
      n->live = c->live;
      for (int i = 0; i < CH; i++)
        if (n->o[i]) n->o[i]->rc++;
      c->rc--;
      c = n;
    }
    return c;
  }
  u64 add(MemObj *o) {
    u64 id = next++;
    Chunk *c = own(id / CH);
    c->o[id % CH] = o;
    c->live++;
    return id << ASHIFT;
  }
  MemObj *get(u64 id) const {
    u64 ci = id / CH;
    if (ci >= ch.size() || !ch[ci]) return nullptr;
    return ch[ci]->o[id % CH];
  }
  MemObj *getW(u64 id) {
    Chunk *c = own(id / CH);
    MemObj *&o = c->o[id % CH];
    if (o && o->rc > 1) {
      MemObj *n = cloneObj(o);
      o->rc--;
      o = n;
    }
    return o;
  }
  void kill(u64 id) {
    Chunk *c = own(id / CH);
    decObj(c->o[id % CH]);
    c->o[id % CH] = nullptr;
    if (--c->live == 0 && id / CH + 2 < next / CH) {
      dec(c);
      ch[id / CH] = nullptr;
    }
  }
};

// ---------------------------------------------------------------- decoded code
enum Kind : uint8_t {
  K_BIN, K_CMP, K_ZEXT, K_SEXT, K_TRUNC, K_COPY, K_SELECT, K_LOAD, K_STORE, K_GEP, K_ALLOCA, K_BR, K_CBR, K_SWITCH, K_RET,
  K_CALL, K_UNREACHABLE, K_EXTRACTV, K_INSERTV, K_LANDINGPAD, K_RESUME, K_RMW, K_CMPXCHG, K_NOP, K_FBIN, K_FCMP, K_FCAST, K_UNSUP
};
struct Edge {
  int target = -1;
  std::vector<std::pair<int, int>> moves; // dst, src
};
struct Func;
struct CallX {
  llvm::Function *callee = nullptr;
  Func *fn = nullptr;
  int builtin = -1;
  int fop = 0;
  std::vector<int> args;
  std::vector<uint8_t> nflat;
  std::vector<uint8_t> wid; // width of first flat
  std::vector<u64> byval;   // size or 0
  int nret = 0;
  bool invoke = false;
  int e0 = -1, e1 = -1;
};
struct GepX {
  std::vector<std::pair<int, i64>> idx; // operand, scale
  std::vector<uint8_t> w;
};
struct SwX {
  std::vector<std::pair<u64, int>> cases;
  int def;
};
struct LpX {
  bool cleanup;
  struct Cl { bool filter; std::vector<u64> tis; };
  std::vector<Cl> cl;
};
struct FlatT { uint8_t w; char k; u64 off; }; // k: i p f d
struct MemX { std::vector<FlatT> f; u64 size; };
struct Ins {
  Kind k = K_NOP;
  uint8_t sub = 0, w = 0, w2 = 0;
  int dst = -1, a = 0, b = 0, c = 0;
  u64 imm = 0;
  void *x = nullptr;
  llvm::Instruction *I = nullptr;
};
struct Block { std::vector<Ins> ins; };
struct Func {
  llvm::Function *F;
  int ordinal;
  int nslots = 0;
  std::vector<Value> consts;
  std::vector<Block> bb;
  std::vector<Edge> edges;
  std::vector<int> argslot;
  bool decoded = false;
};
struct Frame {
  int rc = 1;
  Func *f;
  int bb = 0, pc = 0;
  std::vector<Value> regs;
  std::vector<u64> allocas;
};

struct Exc { u64 obj = 0, ti = 0; };
struct SymIn { std::string name; std::vector<int> vars; };
struct State {
  std::vector<Frame *> st;
  Mem mem;
  PathCond pc;
  Exc exc;
  std::vector<Exc> caught;
  std::vector<SymIn> inputs;
  u64 steps = 0;
  int nchoice = 0;
  bool allowAbort = false;
  std::vector<std::string> trace;
  std::shared_ptr<std::string> excWhere, note;
  State() {}
  State(const State &o) : st(o.st), mem(o.mem), pc(o.pc), exc(o.exc), caught(o.caught), inputs(o.inputs), steps(o.steps), nchoice(o.nchoice), allowAbort(o.allowAbort), trace(o.trace), excWhere(o.excWhere), note(o.note) {
    for (auto f : st) f->rc++;
  }
  ~State() {
    for (auto f : st)
      if (--f->rc == 0) delete f;
  }
  Frame *top() {
    Frame *&f = st.back();
    if (f->rc > 1) {
      Frame *n = new Frame(*f);
      n->rc = 1;
      f->rc--;
      f = n;
    }
    return f;
  }
};

// ---------------------------------------------------------------- shared stats
struct Shared {
  std::atomic<int> active;
  std::atomic<u64> paths, assumeKilled, errors, unsupported, forks, q, qsat, qunsat, qunk, qcache, qus, domdec, assertsFold, assertsSolver, steps, nviol, okAbort, incomplete, stepLimit, pathsSat, undefBranch, spawned, nsamples;
  std::atomic<int> stop;
  std::atomic<int> lock;
  struct Lab { char n[120]; std::atomic<u64> c; } labs[256];
  std::atomic<int> nlabs;
  struct Key { u64 h; int c; } keys[512];
  int nkeys;
  char unsup[16][160];
  std::atomic<int> nunsup;
  std::atomic<uint8_t> fn[20000];
  double t0;
};
static Shared *SH;
static void lk() { while (SH->lock.exchange(1)) usleep(10); }
static void ul() { SH->lock = 0; }

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

// control-flow exceptions inside the executor
struct PathEnd {};                 // state finished (already accounted)
struct Retry {};                   // clones pushed, current state constrained, re-execute

enum Builtin {
  B_NONE, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMSET, B_MEMCMP, B_BCMP, B_MEMCHR, B_STRLEN, B_NOP0, B_NOP1, B_ABORT, B_ASSERT,
  B_EXIT, B_THROW, B_ALLOC_EXC, B_FREE_EXC, B_BEGIN_CATCH, B_END_CATCH, B_RETHROW, B_TERMINATE, B_THROWSTD, B_GUARD_ACQ, B_GUARD_REL, B_ERRNO,
  B_SYMBOLIC, B_ASSUME, B_SXASSERT, B_COVER, B_CONC, B_ASSUME_IN, B_ISSYM, B_NOTE, B_ALLOW_ABORT, B_SXFAIL, B_EXC_CTOR, B_EH_TYPEID, B_MINMAX, B_OVF, B_ABS,
  B_CTPOP, B_CTLZ, B_CTTZ, B_BSWAP, B_FSH, B_SAT, B_EXPECT, B_OBJSIZE, B_TRAP, B_LIFE, B_ISCONST, B_STACKSAVE, B_UNSUP, B_PTRMASK, B_TLS, B_UNCAUGHT, B_EXPECTSAT, B_STRCMP
};

class Engine {
public:
  std::unique_ptr<llvm::Module> M;
  const llvm::DataLayout *DL;
  Ctx C;
  Solver S;
  std::map<llvm::Function *, Func *> funcs;
  std::map<u64, Func *> faddr;
  std::map<const llvm::GlobalValue *, u64> gaddr;
  std::map<std::string, u64> extobj;
  std::map<u64, std::vector<u64>> tibases;
  std::map<u64, std::string> tiname;
  std::map<std::string, llvm::Function *> models;
  u64 errnoAddr = 0, excVt = 0;
  std::deque<State *> Qu;
  State *base = nullptr;
  std::string outdir;
  int workers = 8;
  double deadline = 1e18;
  u64 maxSteps = 50000000;
  int maxViol = 12;
  double stopAfterViol = 20;
  double firstViol = 0;
  int undefCnt = 0;
  bool concreteOnly = false;
  bool pathz3 = true;
  Engine(std::unique_ptr<llvm::Module> m) : M(std::move(m)), S(C, 20000) { DL = &M->getDataLayout(); }

  // ------------------------------------------------------------ types
  void flat(llvm::Type *T, u64 off, std::vector<FlatT> &o) {
    if (T->isIntegerTy()) {
      unsigned w = T->getIntegerBitWidth();
      o.push_back({(uint8_t)(w > 64 ? 255 : w), 'i', off});
    } else if (T->isPointerTy()) o.push_back({64, 'p', off});
    else if (T->isFloatTy()) o.push_back({32, 'f', off});
    else if (T->isDoubleTy()) o.push_back({64, 'd', off});
    else if (auto *ST = dyn_cast<llvm::StructType>(T)) {
      auto *SL = DL->getStructLayout(ST);
      for (unsigned i = 0; i < ST->getNumElements(); i++) flat(ST->getElementType(i), off + SL->getElementOffset(i), o);
    } else if (auto *AT = dyn_cast<llvm::ArrayType>(T)) {
      u64 es = DL->getTypeAllocSize(AT->getElementType());
      for (u64 i = 0; i < AT->getNumElements(); i++) flat(AT->getElementType(), off + i * es, o);
    } else if (T->isVoidTy()) {
    } else
      o.push_back({255, 'u', off});
  }
  int nflat(llvm::Type *T) {
    std::vector<FlatT> o;
    flat(T, 0, o);
    return (int)o.size();
  }
  unsigned width1(llvm::Type *T) {
    if (T->isIntegerTy()) return T->getIntegerBitWidth() > 64 ? 255 : T->getIntegerBitWidth();
    if (T->isPointerTy()) return 64;
    if (T->isFloatTy()) return 32;
    if (T->isDoubleTy()) return 64;
    return 255;
  }

  // ------------------------------------------------------------ globals
  u64 extObject(const std::string &n, u64 size, bool zero = true) {
    auto it = extobj.find(n);
    if (it != extobj.end()) return it->second;
    MemObj *o = newObj(size, 'g', zero);
    u64 a = base->mem.add(o);
    extobj[n] = a;
    return a;
  }
  void putBytes(u64 addr, u64 v, unsigned n) {
    MemObj *o = base->mem.getW(idOf(addr));
    for (unsigned i = 0; i < n; i++) o->data[offOf(addr) + i] = (uint8_t)(v >> (8 * i));
  }
  u64 addrOf(const llvm::GlobalValue *G) {
    auto it = gaddr.find(G);
    if (it != gaddr.end()) return it->second;
    if (auto *A = dyn_cast<llvm::GlobalAlias>(G)) {
      u64 r = constAddr(A->getAliasee());
      gaddr[G] = r;
      return r;
    }
    if (auto *F = dyn_cast<llvm::Function>(G)) {
      if (F->hasExternalWeakLinkage() && F->isDeclaration()) {
        gaddr[G] = 0;
        return 0;
      }
      MemObj *o = newObj(0, 'f', true);
      u64 a = base->mem.add(o);
      gaddr[G] = a;
      faddr[a] = getFunc(const_cast<llvm::Function *>(F));
      return a;
    }
    auto *V = cast<llvm::GlobalVariable>(G);
    std::string n = V->getName().str();
    if (V->isDeclaration()) {
      if (V->hasExternalWeakLinkage()) {
        gaddr[G] = 0;
        return 0;
      }
      u64 a;
      if (n.rfind("_ZTVN10__cxxabiv1", 0) == 0) a = extObject(n, 128);
      else if (n.rfind("_ZTV", 0) == 0) a = extVtable(n);
      else if (n.rfind("_ZTI", 0) == 0) a = extTi(n);
      else {
        u64 sz = 64;
        if (V->getValueType()->isSized()) sz = std::max<u64>(sz, DL->getTypeAllocSize(V->getValueType()));
        a = extObject(n, sz);
        if (n == "__libc_single_threaded") putBytes(a, 1, 1);
      }
      gaddr[G] = a;
      return a;
    }
    MemObj *o = newObj(DL->getTypeAllocSize(V->getValueType()), 'g', true);
    o->ro = V->isConstant();
    u64 a = base->mem.add(o);
    gaddr[G] = a;
    return a;
  }
  u64 extVtable(const std::string &n) {
    u64 a = extObject(n, 96);
    u64 w = whatFn();
    for (int i = 2; i < 12; i++) putBytes(a + 8 * i, w, 8);
    return a;
  }
  u64 whatFn() {
    static u64 a = 0;
    if (!a) {
      llvm::Function *F = M->getFunction("sxm_exc_generic");
      a = F ? addrOf(F) : 1;
    }
    return a;
  }
  u64 extTi(const std::string &n) {
    u64 a = extObject(n, 32);
    tiname[a] = n;
    static const char *H[][2] = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}};
    if (!tibases.count(a)) {
      tibases[a];
      for (auto &h : H)
        if (n == h[0]) tibases[a].push_back(tiByName(h[1]));
    }
    return a;
  }
  u64 tiByName(const std::string &n) {
    if (auto *G = M->getNamedGlobal(n)) return addrOf(G);
    return extTi(n);
  }
  const std::vector<u64> &basesOf(u64 ti) {
    auto it = tibases.find(ti);
    if (it != tibases.end()) return it->second;
    std::vector<u64> r;
    for (auto &g : gaddr)
      if (g.second == ti) {
        auto *V = dyn_cast<llvm::GlobalVariable>(g.first);
        if (V && V->hasInitializer())
          if (auto *CS = dyn_cast<llvm::ConstantStruct>(V->getInitializer())) {
            for (unsigned i = 2; i < CS->getNumOperands(); i++)
              if (CS->getOperand(i)->getType()->isPointerTy()) r.push_back(constAddr(CS->getOperand(i)));
          }
        if (V) tiname[ti] = V->getName().str();
        break;
      }
    return tibases[ti] = r;
  }
  bool tiMatch(u64 thrown, u64 want) {
    if (want == 0 || thrown == want) return true;
    for (u64 b : basesOf(thrown))
      if (tiMatch(b, want)) return true;
    return false;
  }
  u64 constAddr(const llvm::Constant *K) {
    Value v = constScalar(K);
    return v.c;
  }
  Value constScalar(const llvm::Constant *K) {
    if (auto *CI = dyn_cast<llvm::ConstantInt>(K)) return Value(CI->getValue().getRawData()[0] & maskw(std::min(64u, CI->getBitWidth())));
    if (isa<llvm::ConstantPointerNull>(K) || isa<llvm::UndefValue>(K) || isa<llvm::ConstantAggregateZero>(K)) return Value((u64)0);
    if (auto *G = dyn_cast<llvm::GlobalValue>(K)) return Value(addrOf(G));
    if (auto *CF = dyn_cast<llvm::ConstantFP>(K)) {
      return Value(CF->getValueAPF().bitcastToAPInt().getRawData()[0]);
    }
    if (auto *CE = dyn_cast<llvm::ConstantExpr>(K)) {
      unsigned w = width1(CE->getType());
      switch (CE->getOpcode()) {
      case llvm::Instruction::GetElementPtr: {
        auto *G = cast<llvm::GEPOperator>(CE);
        llvm::APInt off(64, 0);
        if (!G->accumulateConstantOffset(*DL, off)) fatal("const gep");
        return Value(constScalar(CE->getOperand(0)).c + (u64)off.getSExtValue());
      }
      case llvm::Instruction::PtrToInt: case llvm::Instruction::IntToPtr: case llvm::Instruction::BitCast: case llvm::Instruction::Trunc:
        return Value(constScalar(CE->getOperand(0)).c & maskw(w));
      case llvm::Instruction::Add: return Value((constScalar(CE->getOperand(0)).c + constScalar(CE->getOperand(1)).c) & maskw(w));
      case llvm::Instruction::Sub: return Value((constScalar(CE->getOperand(0)).c - constScalar(CE->getOperand(1)).c) & maskw(w));
      case llvm::Instruction::ICmp: {
        u64 x = constScalar(CE->getOperand(0)).c, y = constScalar(CE->getOperand(1)).c;
        auto p = CE->getPredicate();
        if (p == llvm::CmpInst::ICMP_EQ) return Value((u64)(x == y));
        if (p == llvm::CmpInst::ICMP_NE) return Value((u64)(x != y));
        break;
      }
      default: break;
      }
      std::string s;
      llvm::raw_string_ostream os(s);
      CE->print(os);
      fatal("unsupported constexpr " + s);
    }
    std::string s;
    llvm::raw_string_ostream os(s);
    K->print(os);
    fatal("unsupported constant " + s);
  }
  void fatal(const std::string &m) __attribute__((noreturn)) {
    fprintf(stderr, "sx: fatal: %s\n", m.c_str());
    exit(3);
  }
  void initInto(const llvm::Constant *K, MemObj *o, u64 off) {
    llvm::Type *T = K->getType();
    if (isa<llvm::ConstantAggregateZero>(K) || isa<llvm::UndefValue>(K)) return;
    if (auto *CD = dyn_cast<llvm::ConstantDataSequential>(K)) {
      llvm::StringRef r = CD->getRawDataValues();
      memcpy(o->data + off, r.data(), r.size());
      return;
    }
    if (auto *CS = dyn_cast<llvm::ConstantStruct>(K)) {
      auto *SL = DL->getStructLayout(CS->getType());
      for (unsigned i = 0; i < CS->getNumOperands(); i++) initInto(CS->getOperand(i), o, off + SL->getElementOffset(i));
      return;
    }
    if (auto *CA = dyn_cast<llvm::ConstantArray>(K)) {
      u64 es = DL->getTypeAllocSize(CA->getType()->getElementType());
      for (unsigned i = 0; i < CA->getNumOperands(); i++) initInto(CA->getOperand(i), o, off + i * es);
      return;
    }
    u64 n = DL->getTypeStoreSize(T);
    u64 v = constScalar(K).c;
    for (u64 i = 0; i < n && i < 8; i++) o->data[off + i] = (uint8_t)(v >> (8 * i));
  }
  void setup() {
    base = new State;
    int ord = 0;
    for (auto &F : *M) {
      Func *f = new Func;
      f->F = &F;
      f->ordinal = ord++;
      funcs[&F] = f;
      if (F.getName().starts_with("sxm_")) models[F.getName().substr(4).str()] = &F;
    }
    for (auto &F : *M)
      if (!F.isIntrinsic()) addrOf(&F);
    for (auto &G : M->globals()) addrOf(&G);
    for (auto &G : M->aliases()) addrOf(&G);
    for (auto &G : M->globals())
      if (G.hasInitializer()) {
        MemObj *o = base->mem.getW(idOf(addrOf(&G)));
        initInto(G.getInitializer(), o, 0);
        // addrOf inside may reallocate chunk tables but never objects
      }
    errnoAddr = extObject("$errno", 8);
  }
  Func *getFunc(llvm::Function *F) { return funcs[F]; }

  // ------------------------------------------------------------ decode
  std::map<const llvm::Value *, int> slotOf;
  std::map<const llvm::BasicBlock *, int> bbOf;
  int operand(Func *f, const llvm::Value *v) {
    if (auto *K = dyn_cast<llvm::Constant>(v)) {
      int idx = (int)f->consts.size();
      pushConst(f, K);
      if ((int)f->consts.size() == idx) f->consts.push_back(Value((u64)0));
      return -1 - idx;
    }
    if (isa<llvm::MetadataAsValue>(v) || isa<llvm::InlineAsm>(v)) return -1 - dummy(f);
    auto it = slotOf.find(v);
    if (it == slotOf.end()) fatal("no slot");
    return it->second;
  }
  int dummy(Func *f) {
    f->consts.push_back(Value((u64)0));
    return (int)f->consts.size() - 1;
  }
  void pushConst(Func *f, const llvm::Constant *K) {
    llvm::Type *T = K->getType();
    if (T->isStructTy() || T->isArrayTy()) {
      if (isa<llvm::UndefValue>(K) || isa<llvm::ConstantAggregateZero>(K)) {
        int n = nflat(T);
        for (int i = 0; i < n; i++) f->consts.push_back(Value((u64)0));
      } else
        for (unsigned i = 0; i < K->getNumOperands(); i++) pushConst(f, cast<llvm::Constant>(K->getOperand(i)));
      return;
    }
    f->consts.push_back(constScalar(K));
  }
  int edge(Func *f, const llvm::BasicBlock *from, const llvm::BasicBlock *to) {
    Edge e;
    e.target = bbOf[to];
    for (auto &I : *to) {
      auto *P = dyn_cast<llvm::PHINode>(&I);
      if (!P) break;
      const llvm::Value *v = P->getIncomingValueForBlock(from);
      int s = operand(f, v), d = slotOf[P];
      int n = nflat(P->getType());
      for (int i = 0; i < n; i++) e.moves.push_back({d + i, s >= 0 ? s + i : s - i});
    }
    f->edges.push_back(e);
    return (int)f->edges.size() - 1;
  }
  int flatIndex(llvm::Type *T, llvm::ArrayRef<unsigned> idx) {
    int r = 0;
    for (unsigned i : idx) {
      if (auto *ST = dyn_cast<llvm::StructType>(T)) {
        for (unsigned k = 0; k < i; k++) r += nflat(ST->getElementType(k));
        T = ST->getElementType(i);
      } else {
        auto *AT = cast<llvm::ArrayType>(T);
        r += i * nflat(AT->getElementType());
        T = AT->getElementType();
      }
    }
    return r;
  }
  MemX *memx(llvm::Type *T) {
    MemX *m = new MemX;
    flat(T, 0, m->f);
    m->size = DL->getTypeStoreSize(T);
    return m;
  }
  void decode(Func *f) {
    f->decoded = true;
    if (f->ordinal < 20000) SH->fn[f->ordinal] = 1;
    slotOf.clear();
    bbOf.clear();
    int n = 0, nb = 0;
    for (auto &A : f->F->args()) {
      slotOf[&A] = n;
      f->argslot.push_back(n);
      n += nflat(A.getType());
    }
    for (auto &B : *f->F) {
      bbOf[&B] = nb++;
      for (auto &I : B)
        if (!I.getType()->isVoidTy()) {
          slotOf[&I] = n;
          n += std::max(1, nflat(I.getType()));
        }
    }
    f->nslots = n;
    f->bb.resize(nb);
    for (auto &B : *f->F) {
      Block &blk = f->bb[bbOf[&B]];
      for (auto &I : B) {
        if (isa<llvm::PHINode>(I) || isa<llvm::DbgInfoIntrinsic>(I)) continue;
        Ins x;
        x.I = &I;
        if (!I.getType()->isVoidTy()) x.dst = slotOf[&I];
        decodeIns(f, B, I, x);
        blk.ins.push_back(x);
      }
    }
  }
  void decodeIns(Func *f, llvm::BasicBlock &B, llvm::Instruction &I, Ins &x) {
    using llvm::Instruction;
    auto op = [&](unsigned i) { return operand(f, I.getOperand(i)); };
    switch (I.getOpcode()) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      x.k = K_BIN;
      x.w = width1(I.getType());
      if (x.w == 255) { x.k = K_UNSUP; break; }
      static const std::map<unsigned, Op> m = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}};
      x.sub = m.at(I.getOpcode());
      x.a = op(0);
      x.b = op(1);
      break;
    }
    case Instruction::ICmp: {
      x.k = K_CMP;
      auto &ci = cast<llvm::ICmpInst>(I);
      x.w = width1(I.getOperand(0)->getType());
      if (x.w == 255) { x.k = K_UNSUP; break; }
      x.sub = ci.getPredicate();
      x.a = op(0);
      x.b = op(1);
      break;
    }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
      x.k = I.getOpcode() == Instruction::ZExt ? K_ZEXT : I.getOpcode() == Instruction::SExt ? K_SEXT : K_TRUNC;
      x.w = width1(I.getOperand(0)->getType());
      x.w2 = width1(I.getType());
      if (x.w == 255 || x.w2 == 255) x.k = K_UNSUP;
      x.a = op(0);
      break;
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
      unsigned wf = width1(I.getOperand(0)->getType()), wt = width1(I.getType());
      x.a = op(0);
      x.w = wf;
      x.w2 = wt;
      x.imm = 1;
      x.k = wf == 255 || wt == 255 ? K_UNSUP : wf == wt ? K_COPY : wf > wt ? K_TRUNC : K_ZEXT;
      break;
    }
    case Instruction::Freeze:
      x.k = K_COPY;
      x.imm = nflat(I.getType());
      x.a = op(0);
      break;
    case Instruction::Select:
      x.k = K_SELECT;
      x.a = op(0);
      x.b = op(1);
      x.c = op(2);
      x.imm = nflat(I.getType());
      x.w = width1(I.getType());
      if (x.w == 255) { x.x = memx(I.getType()); }
      break;
    case Instruction::Load:
      x.k = K_LOAD;
      x.a = op(0);
      x.x = memx(I.getType());
      break;
    case Instruction::Store:
      x.k = K_STORE;
      x.b = op(0);
      x.a = op(1);
      x.x = memx(I.getOperand(0)->getType());
      break;
    case Instruction::GetElementPtr: {
      auto &G = cast<llvm::GetElementPtrInst>(I);
      if (I.getType()->isVectorTy()) { x.k = K_UNSUP; break; }
      x.k = K_GEP;
      x.a = op(0);
      GepX *g = new GepX;
      i64 off = 0;
      for (auto it = llvm::gep_type_begin(G), e = llvm::gep_type_end(G); it != e; ++it) {
        llvm::Value *v = it.getOperand();
        if (auto *ST = it.getStructTypeOrNull()) {
          off += DL->getStructLayout(ST)->getElementOffset(cast<llvm::ConstantInt>(v)->getZExtValue());
        } else {
          i64 sc = DL->getTypeAllocSize(it.getIndexedType());
          if (auto *CI = dyn_cast<llvm::ConstantInt>(v)) off += CI->getSExtValue() * sc;
          else {
            g->idx.push_back({operand(f, v), sc});
            g->w.push_back(width1(v->getType()));
          }
        }
      }
      x.imm = (u64)off;
      x.x = g;
      break;
    }
    case Instruction::Alloca: {
      auto &A = cast<llvm::AllocaInst>(I);
      x.k = K_ALLOCA;
      x.imm = DL->getTypeAllocSize(A.getAllocatedType());
      x.a = operand(f, A.getArraySize());
      x.w = width1(A.getArraySize()->getType());
      break;
    }
    case Instruction::Br: {
      auto &b = cast<llvm::BranchInst>(I);
      if (b.isConditional()) {
        x.k = K_CBR;
        x.a = operand(f, b.getCondition());
        x.b = edge(f, &B, b.getSuccessor(0));
        x.c = edge(f, &B, b.getSuccessor(1));
      } else {
        x.k = K_BR;
        x.b = edge(f, &B, b.getSuccessor(0));
      }
      break;
    }
    case Instruction::Switch: {
      auto &s = cast<llvm::SwitchInst>(I);
      x.k = K_SWITCH;
      x.a = operand(f, s.getCondition());
      x.w = width1(s.getCondition()->getType());
      SwX *w = new SwX;
      w->def = edge(f, &B, s.getDefaultDest());
      for (auto &c : s.cases()) w->cases.push_back({c.getCaseValue()->getZExtValue(), edge(f, &B, c.getCaseSuccessor())});
      x.x = w;
      break;
    }
    case Instruction::Ret:
      x.k = K_RET;
      x.imm = I.getNumOperands() ? nflat(I.getOperand(0)->getType()) : 0;
      if (I.getNumOperands()) x.a = op(0);
      break;
    case Instruction::Unreachable: x.k = K_UNREACHABLE; break;
    case Instruction::ExtractValue: {
      auto &e = cast<llvm::ExtractValueInst>(I);
      x.k = K_EXTRACTV;
      x.a = op(0);
      x.b = flatIndex(e.getAggregateOperand()->getType(), e.getIndices());
      x.imm = nflat(I.getType());
      break;
    }
    case Instruction::InsertValue: {
      auto &e = cast<llvm::InsertValueInst>(I);
      x.k = K_INSERTV;
      x.a = op(0);
      x.c = op(1);
      x.b = flatIndex(e.getType(), e.getIndices());
      x.imm = nflat(I.getType());
      x.w = (uint8_t)nflat(e.getInsertedValueOperand()->getType());
      break;
    }
    case Instruction::LandingPad: {
      auto &l = cast<llvm::LandingPadInst>(I);
      x.k = K_LANDINGPAD;
      LpX *p = new LpX;
      p->cleanup = l.isCleanup();
      for (unsigned i = 0; i < l.getNumClauses(); i++) {
        LpX::Cl c;
        c.filter = l.isFilter(i);
        llvm::Constant *K = l.getClause(i);
        if (c.filter) {
          if (auto *CA = dyn_cast<llvm::ConstantArray>(K))
            for (unsigned k = 0; k < CA->getNumOperands(); k++) c.tis.push_back(constAddr(CA->getOperand(k)));
        } else
          c.tis.push_back(constAddr(K));
        p->cl.push_back(c);
      }
      x.x = p;
      break;
    }
    case Instruction::Resume: x.k = K_RESUME; break;
    case Instruction::AtomicRMW: {
      auto &r = cast<llvm::AtomicRMWInst>(I);
      x.k = K_RMW;
      x.a = op(0);
      x.b = op(1);
      x.sub = r.getOperation();
      x.w = width1(I.getType());
      x.x = memx(I.getType());
      break;
    }
    case Instruction::AtomicCmpXchg:
      x.k = K_CMPXCHG;
      x.a = op(0);
      x.b = op(1);
      x.c = op(2);
      x.x = memx(I.getOperand(1)->getType());
      x.w = width1(I.getOperand(1)->getType());
      break;
    case Instruction::Fence: x.k = K_NOP; break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
      x.k = K_FBIN;
      x.sub = I.getOpcode() == Instruction::FAdd ? 0 : I.getOpcode() == Instruction::FSub ? 1 : I.getOpcode() == Instruction::FMul ? 2 : 3;
      x.w = width1(I.getType());
      x.a = op(0);
      x.b = op(1);
      if (x.w == 255) x.k = K_UNSUP;
      break;
    case Instruction::FCmp:
      x.k = K_FCMP;
      x.sub = cast<llvm::FCmpInst>(I).getPredicate();
      x.w = width1(I.getOperand(0)->getType());
      x.a = op(0);
      x.b = op(1);
      if (x.w == 255) x.k = K_UNSUP;
      break;
    case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc:
      x.k = K_FCAST;
      x.a = op(0);
      x.imm = I.getOpcode();
      x.w = width1(I.getOperand(0)->getType());
      x.w2 = width1(I.getType());
      if (x.w == 255 || x.w2 == 255) x.k = K_UNSUP;
      break;
    case Instruction::Call: case Instruction::Invoke: decodeCall(f, B, cast<llvm::CallBase>(I), x); break;
    default: x.k = K_UNSUP;
    }
  }
  void decodeCall(Func *f, llvm::BasicBlock &B, llvm::CallBase &CB, Ins &x) {
    x.k = K_CALL;
    CallX *c = new CallX;
    x.x = c;
    llvm::Value *cv = CB.getCalledOperand()->stripPointerCasts();
    if (auto *A = dyn_cast<llvm::GlobalAlias>(cv)) cv = A->getAliasee()->stripPointerCasts();
    c->callee = dyn_cast<llvm::Function>(cv);
    c->nret = CB.getType()->isVoidTy() ? 0 : nflat(CB.getType());
    x.w = CB.getType()->isVoidTy() ? 0 : width1(CB.getType());
    if (auto *IV = dyn_cast<llvm::InvokeInst>(&CB)) {
      c->invoke = true;
      c->e0 = edge(f, &B, IV->getNormalDest());
      c->e1 = edge(f, &B, IV->getUnwindDest());
    }
    for (unsigned i = 0; i < CB.arg_size(); i++) {
      llvm::Value *a = CB.getArgOperand(i);
      c->args.push_back(operand(f, a));
      c->nflat.push_back(isa<llvm::MetadataAsValue>(a) ? 1 : (uint8_t)nflat(a->getType()));
      c->wid.push_back(isa<llvm::MetadataAsValue>(a) ? 64 : (uint8_t)width1(a->getType()));
      c->byval.push_back(CB.isByValArgument(i) ? DL->getTypeAllocSize(CB.getParamByValType(i)) : 0);
    }
    if (c->callee) {
      resolve(c, c->callee, x);
    } else
      c->fop = operand(f, CB.getCalledOperand());
  }
  void resolve(CallX *c, llvm::Function *F, Ins &x) {
    std::string n = F->getName().str();
    auto m = models.find(n);
    if (m != models.end()) {
      c->fn = getFunc(m->second);
      return;
    }
    int b = builtinId(F, n, x.sub);
    if (b != B_NONE) {
      c->builtin = b;
      return;
    }
    if (!F->isDeclaration()) {
      c->fn = getFunc(F);
      return;
    }
    c->builtin = B_UNSUP;
  }
  int builtinId(llvm::Function *F, const std::string &n, uint8_t &sub) {
    using llvm::Intrinsic::ID;
    namespace In = llvm::Intrinsic;
    if (F->isIntrinsic()) {
      switch (F->getIntrinsicID()) {
      case In::memcpy: case In::memmove: return B_MEMCPY;
      case In::memcpy_inline: return B_MEMCPY;
      case In::memset: return B_MEMSET;
      case In::lifetime_start: case In::lifetime_end: return B_LIFE;
      case In::assume: case In::experimental_noalias_scope_decl: case In::donothing: case In::invariant_start: case In::invariant_end: case In::prefetch: case In::sideeffect: case In::stackrestore: return B_NOP0;
      case In::expect: case In::expect_with_probability: case In::launder_invariant_group: case In::strip_invariant_group: return B_EXPECT;
      case In::threadlocal_address: return B_EXPECT;
      case In::umin: sub = 0; return B_MINMAX;
      case In::umax: sub = 1; return B_MINMAX;
      case In::smin: sub = 2; return B_MINMAX;
      case In::smax: sub = 3; return B_MINMAX;
      case In::abs: return B_ABS;
      case In::uadd_with_overflow: sub = 0; return B_OVF;
      case In::usub_with_overflow: sub = 1; return B_OVF;
      case In::umul_with_overflow: sub = 2; return B_OVF;
      case In::sadd_with_overflow: sub = 3; return B_OVF;
      case In::ssub_with_overflow: sub = 4; return B_OVF;
      case In::smul_with_overflow: sub = 5; return B_OVF;
      case In::usub_sat: sub = 0; return B_SAT;
      case In::uadd_sat: sub = 1; return B_SAT;
      case In::ctpop: return B_CTPOP;
      case In::ctlz: return B_CTLZ;
      case In::cttz: return B_CTTZ;
      case In::bswap: return B_BSWAP;
      case In::fshl: sub = 0; return B_FSH;
      case In::fshr: sub = 1; return B_FSH;
      case In::objectsize: return B_OBJSIZE;
      case In::trap: case In::ubsantrap: return B_TRAP;
      case In::is_constant: return B_ISCONST;
      case In::stacksave: return B_STACKSAVE;
      case In::eh_typeid_for: return B_EH_TYPEID;
      default: return B_UNSUP;
      }
    }
    static const std::map<std::string, std::pair<int, int>> T = {
        {"malloc", {B_MALLOC, 0}}, {"_Znwm", {B_MALLOC, 0}}, {"_Znam", {B_MALLOC, 0}}, {"_ZnwmRKSt9nothrow_t", {B_MALLOC, 0}}, {"_ZnamRKSt9nothrow_t", {B_MALLOC, 0}}, {"_ZnwmSt11align_val_t", {B_MALLOC, 0}}, {"calloc", {B_CALLOC, 0}}, {"realloc", {B_REALLOC, 0}}, {"free", {B_FREE, 0}}, {"_ZdlPv", {B_FREE, 0}}, {"_ZdlPvm", {B_FREE, 0}}, {"_ZdaPv", {B_FREE, 0}}, {"_ZdaPvm", {B_FREE, 0}}, {"_ZdlPvSt11align_val_t", {B_FREE, 0}}, {"_ZdlPvmSt11align_val_t", {B_FREE, 0}}, {"_ZdlPvRKSt9nothrow_t", {B_FREE, 0}},
        {"memcpy", {B_MEMCPY, 1}}, {"memmove", {B_MEMCPY, 1}}, {"memset", {B_MEMSET, 1}}, {"memcmp", {B_MEMCMP, 0}}, {"bcmp", {B_BCMP, 0}}, {"memchr", {B_MEMCHR, 0}}, {"strlen", {B_STRLEN, 0}},
        {"abort", {B_ABORT, 0}}, {"__assert_fail", {B_ASSERT, 0}}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", {B_ABORT, 0}}, {"exit", {B_EXIT, 0}}, {"_exit", {B_EXIT, 0}}, {"_ZSt9terminatev", {B_TERMINATE, 0}}, {"__clang_call_terminate", {B_TERMINATE, 0}}, {"__cxa_pure_virtual", {B_ABORT, 0}},
        {"__cxa_throw", {B_THROW, 0}}, {"__cxa_allocate_exception", {B_ALLOC_EXC, 0}}, {"__cxa_free_exception", {B_FREE_EXC, 0}}, {"__cxa_begin_catch", {B_BEGIN_CATCH, 0}}, {"__cxa_end_catch", {B_END_CATCH, 0}}, {"__cxa_rethrow", {B_RETHROW, 0}},
        {"_ZSt19__throw_logic_errorPKc", {B_THROWSTD, 0}}, {"_ZSt20__throw_length_errorPKc", {B_THROWSTD, 1}}, {"_ZSt20__throw_out_of_rangePKc", {B_THROWSTD, 2}}, {"_ZSt24__throw_out_of_range_fmtPKcz", {B_THROWSTD, 2}}, {"_ZSt24__throw_invalid_argumentPKc", {B_THROWSTD, 3}}, {"_ZSt17__throw_bad_allocv", {B_THROWSTD, 4}}, {"_ZSt28__throw_bad_array_new_lengthv", {B_THROWSTD, 4}}, {"_ZSt16__throw_bad_castv", {B_THROWSTD, 5}}, {"_ZSt25__throw_bad_function_callv", {B_THROWSTD, 6}}, {"_ZSt21__throw_runtime_errorPKc", {B_THROWSTD, 7}},
        {"_ZNSt13runtime_errorC1EPKc", {B_EXC_CTOR, 0}}, {"_ZNSt13runtime_errorC2EPKc", {B_EXC_CTOR, 0}}, {"_ZNSt11logic_errorC1EPKc", {B_EXC_CTOR, 0}}, {"_ZNSt11logic_errorC2EPKc", {B_EXC_CTOR, 0}}, {"_ZNSt12out_of_rangeC1EPKc", {B_EXC_CTOR, 0}}, {"_ZNSt16invalid_argumentC1EPKc", {B_EXC_CTOR, 0}}, {"_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", {B_EXC_CTOR, 0}}, {"_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", {B_EXC_CTOR, 0}}, {"_ZNSt13runtime_errorD1Ev", {B_NOP0, 0}}, {"_ZNSt13runtime_errorD2Ev", {B_NOP0, 0}}, {"_ZNSt11logic_errorD1Ev", {B_NOP0, 0}}, {"_ZNSt11logic_errorD2Ev", {B_NOP0, 0}}, {"_ZNSt9exceptionD2Ev", {B_NOP0, 0}}, {"_ZNSt9exceptionD1Ev", {B_NOP0, 0}}, {"_ZNSt12out_of_rangeD1Ev", {B_NOP0, 0}}, {"_ZNSt16invalid_argumentD1Ev", {B_NOP0, 0}}, {"_ZSt18uncaught_exceptionv", {B_NOP0, 0}}, {"_ZSt19uncaught_exceptionsv", {B_NOP0, 0}},
        {"__cxa_guard_acquire", {B_GUARD_ACQ, 0}}, {"__cxa_guard_release", {B_GUARD_REL, 0}}, {"__cxa_guard_abort", {B_NOP0, 0}}, {"__cxa_atexit", {B_NOP0, 0}}, {"atexit", {B_NOP0, 0}}, {"__errno_location", {B_ERRNO, 0}},
        {"_ZNSt8ios_base4InitC1Ev", {B_NOP0, 0}}, {"_ZNSt8ios_base4InitD1Ev", {B_NOP0, 0}}, {"fwrite", {B_NOP0, 0}}, {"fprintf", {B_NOP0, 0}}, {"printf", {B_NOP0, 0}}, {"fputs", {B_NOP0, 0}}, {"puts", {B_NOP0, 0}}, {"fputc", {B_NOP0, 0}}, {"putchar", {B_NOP0, 0}}, {"fflush", {B_NOP0, 0}}, {"clearerr", {B_NOP0, 0}}, {"fileno", {B_NOP0, 0}}, {"isatty", {B_NOP0, 0}}, {"pthread_mutex_lock", {B_NOP0, 0}}, {"pthread_mutex_unlock", {B_NOP0, 0}},
        {"sx_symbolic", {B_SYMBOLIC, 0}}, {"sx_assume", {B_ASSUME, 0}}, {"sx_assert", {B_SXASSERT, 0}}, {"sx_cover", {B_COVER, 0}}, {"sx_concretize", {B_CONC, 0}}, {"sx_assume_in", {B_ASSUME_IN, 0}}, {"sx_is_symbolic", {B_ISSYM, 0}}, {"sx_note", {B_NOTE, 0}}, {"sx_allow_abort", {B_ALLOW_ABORT, 0}}};
    auto it = T.find(n);
    if (it == T.end()) return B_NONE;
    sub = (uint8_t)it->second.second;
    return it->second.first;
  }

  // ------------------------------------------------------------ execution
  State *cur = nullptr;
  Frame *fr = nullptr;
  inline Value get(int o) const { return o >= 0 ? fr->regs[o] : fr->f->consts[-1 - o]; }
  inline Value getN(int o, int i) const { return o >= 0 ? fr->regs[o + i] : fr->f->consts[-1 - o + i]; }
  std::string where() {
    std::string r;
    for (size_t i = cur->st.size(); i-- > 0 && r.size() < 900;) {
      Frame *f = cur->st[i];
      if (!r.empty()) r += " < ";
      r += f->f->F->getName().str();
    }
    return r;
  }
  void esc(FILE *f, const std::string &s) {
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
      else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
      else fputc(c, f);
    }
  }
  void unsupported(const std::string &m) {
    SH->unsupported++;
    lk();
    bool have = false;
    int n = SH->nunsup;
    for (int i = 0; i < n; i++) have |= m.substr(0, 159) == SH->unsup[i];
    if (!have && n < 16) {
      strncpy(SH->unsup[n], m.c_str(), 159);
      SH->nunsup++;
    }
    ul();
    throw PathEnd();
  }
  // record a violation on the current path (extra: condition that must hold as well)
  bool violation(const std::string &kind, const std::string &msg, Expr *extra = nullptr, bool neg = false) {
    std::vector<uint8_t> m;
    int r = S.checkAll(cur->pc, extra, neg, &m);
    if (r == 0) return false;
    std::string wh = where();
    u64 h = std::hash<std::string>()(kind + "|" + msg + "|" + wh.substr(0, 200) + "|" + (cur->note ? *cur->note : ""));
    lk();
    int c = 0, i;
    for (i = 0; i < SH->nkeys; i++)
      if (SH->keys[i].h == h) break;
    if (i < SH->nkeys) c = ++SH->keys[i].c;
    else if (SH->nkeys < 512) {
      SH->keys[SH->nkeys].h = h;
      SH->keys[SH->nkeys++].c = 1;
      c = 1;
    }
    ul();
    SH->errors++;
    if (c > 3) return true;
    u64 n = SH->nviol++;
    std::string p = outdir + "/v" + std::to_string(n) + ".json";
    FILE *f = fopen((p + ".tmp").c_str(), "w");
    if (f) {
      fprintf(f, "{\"kind\":\"%s\",\"msg\":\"", kind.c_str());
      esc(f, msg);
      fprintf(f, "\",\"where\":\"");
      esc(f, wh);
      if (cur->note) {
        fprintf(f, "\",\"note\":\"");
        esc(f, *cur->note);
      }
      fprintf(f, "\",\"solver\":\"%s\",\"inputs\":[", r == 1 ? "sat" : "unknown");
      bool first = true, undef = false;
      for (auto &in : cur->inputs) {
        fprintf(f, "%s{\"name\":\"", first ? "" : ",");
        esc(f, in.name);
        fprintf(f, "\",\"hex\":\"");
        for (int v : in.vars) fprintf(f, "%02x", v < (int)m.size() ? m[v] : 0);
        fprintf(f, "\"}");
        first = false;
      }
      for (size_t v = 0; v < cur->pc.dom.size(); v++)
        if (cur->pc.dom[v] && C.varinfo[v].undef) undef = true;
      for (Expr *e : cur->pc.multi)
        for (int v : e->vars->v)
          if (C.varinfo[v].undef) undef = true;
      if (extra)
        for (int v : extra->vars->v)
          if (C.varinfo[v].undef) undef = true;
      fprintf(f, "],\"undef\":%s}\n", undef ? "true" : "false");
      fclose(f);
      rename((p + ".tmp").c_str(), p.c_str());
    }
    if ((int)n >= maxViol) SH->stop = 1;
    return true;
  }
  void error(const std::string &kind, const std::string &msg) {
    if (cur->allowAbort && (kind == "abort" || kind == "exit" || kind == "exception")) {
      SH->okAbort++;
      throw PathEnd();
    }
    violation(kind, msg);
    throw PathEnd();
  }
  State *clone() {
    SH->forks++;
    State *n = new State(*cur);
    fr = cur->top();
    return n;
  }
  // concretise a term over several bytes through its single-byte subterms
  u64 concEval(Expr *e) {
    if (e->op == O_CONST) return e->cval;
    if (e->sv >= 0) return conc(Value(e));
    if (e->op == O_READ) {
      u64 i = concEval(e->a);
      const Table &T = C.tables[e->cval];
      return i < T.vals.size() ? T.vals[i] : 0;
    }
    if (e->op == O_ITE) return concEval(e->a) ? concEval(e->b) : concEval(e->c);
    u64 x = concEval(e->a), y = e->b ? concEval(e->b) : 0;
    return Ctx::evalOp(e->op, e->w, e->lo, x, y, 0, e->a->w, e->b ? e->b->w : 0);
  }
  // choose a concrete value for v; pushes clones for the alternatives
  u64 conc(Value v) {
    if (!v.e) return v.c;
    if (v.e->sv < 0 && v.e->vars->v.size() <= 4) return concEval(v.e);
    if (v.e->w == 64) {
      int n = 0;
      for (int x : v.e->vars->v) n += C.varinfo[x].undef;
      if (n > 4) error("memory", "use of an uninitialised pointer");
    }
    std::vector<u64> vals;
    if (!S.values(cur->pc, v.e, vals, 4096)) unsupported("too many values to concretize");
    if (vals.empty()) throw PathEnd();
    for (size_t i = 1; i < vals.size(); i++) {
      State *n = clone();
      Value c = C.cmp(O_EQ, v, Value(vals[i]), v.e->w);
      if (c.e) S.add(n->pc, c.e);
      Qu.push_back(n);
    }
    Value c = C.cmp(O_EQ, v, Value(vals[0]), v.e->w);
    if (c.e) S.add(cur->pc, c.e);
    return vals[0];
  }
  // decide a boolean, forking when both outcomes are possible
  bool decide(Value c) {
    if (!c.e) return c.c & 1;
    int r = S.decide(cur->pc, c.e);
    if (r == 0) return false;
    if (r == 1) return true;
    State *n = clone();
    Value nc = C.bin(O_XOR, c, Value(1), 1);
    if (nc.e) S.add(n->pc, nc.e);
    Qu.push_back(n);
    S.add(cur->pc, c.e);
    return true;
  }
  Value narrow(Expr *e) { // concretise terms over a byte whose domain is a single value
    if (e->sv >= 0 && e->sv < (int)cur->pc.dom.size()) {
      DomI *d = cur->pc.dom[e->sv];
      if (d) {
        const u64 *t = C.table(e);
        u64 v0 = t[d->d.first()];
        for (int k = 0; k < 4; k++) {
          u64 m = d->d.b[k];
          while (m) {
            int i = __builtin_ctzll(m);
            m &= m - 1;
            if (t[k * 64 + i] != v0) return Value(e);
          }
        }
        return Value(v0);
      }
    }
    return Value(e);
  }
  Value nv(Value v) { return v.e ? narrow(v.e) : v; }
  void set(int d, Value v) { fr->regs[d] = v.e ? narrow(v.e) : v; }

  MemObj *objFor(u64 addr, u64 n, const char *what, bool write) {
    u64 id = idOf(addr), off = offOf(addr);
    MemObj *o = cur->mem.get(id);
    if (!o) {
      char b[100];
      snprintf(b, sizeof b, "%s of %llu bytes through %s pointer", what, (unsigned long long)n, id == 0 ? "a null or wild" : "a dangling");
      error("memory", b);
    }
    if (off + n > o->size) {
      char b[100];
      snprintf(b, sizeof b, "%s of %llu bytes at offset %llu of an object of %llu bytes", what, (unsigned long long)n, (unsigned long long)off, (unsigned long long)o->size);
      error("memory", b);
    }
    if (write) {
      if (o->ro) error("memory", "write to constant memory");
      o = cur->mem.getW(id);
    }
    return o;
  }
  Value byteAt(MemObj *&o, u64 id, u64 off) {
    if (o->sym && o->sym[off]) return narrow(o->sym[off]);
    if (o->init && !o->init[off]) {
      // uninitialised: an arbitrary but fixed value
      int v = C.newVar("undef" + std::to_string(undefCnt++), true);
      o = cur->mem.getW(id);
      o->init[off] = 1;
      if (!o->sym) o->sym = (Expr **)calloc(o->size ? o->size : 1, sizeof(Expr *));
      o->sym[off] = C.var(v);
      return Value(o->sym[off]);
    }
    return Value(o->data[off]);
  }
  Value loadN(u64 addr, unsigned n, unsigned w) {
    MemObj *o = objFor(addr, n, "read", false);
    u64 off = offOf(addr);
    bool plain = true;
    if (o->sym)
      for (unsigned i = 0; i < n && plain; i++) plain = !o->sym[off + i];
    if (plain && o->init)
      for (unsigned i = 0; i < n && plain; i++) plain = o->init[off + i];
    if (plain) {
      u64 v = 0;
      memcpy(&v, o->data + off, n);
      return Value(v & maskw(w));
    }
    Value r = byteAt(o, idOf(addr), off);
    for (unsigned i = 1; i < n; i++) r = C.concat(byteAt(o, idOf(addr), off + i), 8, r, 8 * i);
    if (w < 8 * n) r = C.extract(r, 0, w, 8 * n);
    return nv(r);
  }
  void storeN(u64 addr, Value v, unsigned n, unsigned w) {
    MemObj *o = objFor(addr, n, "write", true);
    u64 off = offOf(addr);
    if (!v.e) {
      u64 x = v.c & maskw(w);
      memcpy(o->data + off, &x, n);
      if (o->init) memset(o->init + off, 1, n);
      if (o->sym) memset(o->sym + off, 0, n * sizeof(Expr *));
      return;
    }
    if (!o->sym) o->sym = (Expr **)calloc(o->size ? o->size : 1, sizeof(Expr *));
    if (w < 8 * n) v = C.zext(v, w, 8 * n);
    for (unsigned i = 0; i < n; i++) {
      Value b = C.extract(v, 8 * i, 8, 8 * n);
      if (b.e) o->sym[off + i] = b.e;
      else {
        o->sym[off + i] = nullptr;
        o->data[off + i] = (uint8_t)b.c;
      }
      if (o->init) o->init[off + i] = 1;
    }
  }
  // load through a possibly symbolic address
  Value load(Value p, unsigned n, unsigned w) {
    if (!p.e) return loadN(p.c, n, w);
    std::vector<u64> vals;
    if (p.e->sv >= 0 && S.values(cur->pc, p.e, vals, 4096) && vals.size() > 1) {
      std::sort(vals.begin(), vals.end());
      u64 lo = vals[0], hi = vals.back();
      if (idOf(lo) == idOf(hi) && hi - lo < 8192) {
        MemObj *o = cur->mem.get(idOf(lo));
        if (o && offOf(hi) + n <= o->size) {
          bool plain = true;
          for (u64 a : vals) {
            for (unsigned i = 0; i < n && plain; i++) {
              u64 off = offOf(a) + i;
              if (o->sym && o->sym[off]) plain = false;
              if (o->init && !o->init[off]) plain = false;
            }
          }
          if (plain) {
            std::vector<u64> t(hi - lo + 1, 0);
            u64 h = lo * 31 + hi;
            for (u64 a : vals) {
              u64 v = 0;
              memcpy(&v, o->data + offOf(a), n);
              t[a - lo] = v & maskw(w);
              h = h * 1099511628211ull + v;
            }
            int ti = C.newTable(std::move(t), h);
            Value idx = C.bin(O_SUB, p, Value(lo), 64);
            return nv(C.read(ti, idx, w));
          }
        }
      }
    }
    return loadN(conc(p), n, w);
  }
  void memCopy(u64 d, u64 s, u64 n) {
    if (!n) return;
    MemObj *so = objFor(s, n, "read", false);
    so->rc++; // keep alive across getW
    MemObj *dob;
    try {
      dob = objFor(d, n, "write", true);
    } catch (...) {
      decObj(so);
      throw;
    }
    u64 a = offOf(d), b = offOf(s);
    memmove(dob->data + a, so->data + b, n);
    if (so->init) {
      if (!dob->init) {
        dob->init = (uint8_t *)malloc(dob->size ? dob->size : 1);
        memset(dob->init, 1, dob->size);
      }
      memmove(dob->init + a, so->init + b, n);
    } else if (dob->init)
      memset(dob->init + a, 1, n);
    if (so->sym) {
      if (!dob->sym) dob->sym = (Expr **)calloc(dob->size ? dob->size : 1, sizeof(Expr *));
      memmove(dob->sym + a, so->sym + b, n * sizeof(Expr *));
    } else if (dob->sym)
      memset(dob->sym + a, 0, n * sizeof(Expr *));
    decObj(so);
  }
  Value peekByte(u64 addr) {
    MemObj *o = objFor(addr, 1, "read", false);
    return byteAt(o, idOf(addr), offOf(addr));
  }
  std::string cstr(u64 a) {
    std::string r;
    for (int i = 0; i < 400; i++) {
      Value b = peekByte(a + i);
      if (b.e) r += '?';
      else if (!b.c) break;
      else r += (char)b.c;
    }
    return r;
  }
  void label(const std::string &l) {
    lk();
    int i, n = SH->nlabs;
    for (i = 0; i < n; i++)
      if (l.substr(0, 119) == SH->labs[i].n) break;
    if (i < n) SH->labs[i].c++;
    else if (n < 256) {
      strncpy(SH->labs[n].n, l.c_str(), 119);
      SH->labs[n].c = 1;
      SH->nlabs++;
    }
    ul();
  }

  void goEdge(int e) {
    const Edge &E = fr->f->edges[e];
    size_t n = E.moves.size();
    if (n == 1) fr->regs[E.moves[0].first] = get(E.moves[0].second);
    else if (n) {
      Value tmp[64];
      std::vector<Value> big;
      Value *t = tmp;
      if (n > 64) {
        big.resize(n);
        t = big.data();
      }
      for (size_t i = 0; i < n; i++) t[i] = get(E.moves[i].second);
      for (size_t i = 0; i < n; i++) fr->regs[E.moves[i].first] = t[i];
    }
    fr->bb = E.target;
    fr->pc = 0;
  }
  void pushFrame(Func *f) {
    if (!f->decoded) decode(f);
    if (cur->st.size() > 4000) error("stack", "call depth exceeds 4000");
    Frame *n = new Frame;
    n->f = f;
    n->regs.resize(f->nslots);
    cur->st.push_back(n);
  }
  void popFrame() {
    Frame *f = cur->st.back();
    for (u64 id : f->allocas) cur->mem.kill(id);
    cur->st.pop_back();
    if (--f->rc == 0) delete f;
  }
  // unwinding: current top frame is positioned at the raising call
  void unwind() {
    // phase 1: is there a handler at all?
    while (true) {
      if (cur->st.empty()) {
        cur->st.clear();
        throw PathEnd();
      }
      fr = cur->top();
      Ins &in = fr->f->bb[fr->bb].ins[fr->pc];
      CallX *c = (in.k == K_CALL) ? (CallX *)in.x : nullptr;
      if (c && c->invoke) {
        goEdge(c->e1);
        // landing pad is the first non-phi instruction
        Ins &lp = fr->f->bb[fr->bb].ins[fr->pc];
        if (lp.k != K_LANDINGPAD) unsupported("no landingpad");
        LpX *p = (LpX *)lp.x;
        int sel = 0;
        bool hit = false;
        for (auto &cl : p->cl) {
          if (cl.filter) {
            bool in = false;
            for (u64 t : cl.tis) in |= tiMatch(cur->exc.ti, t);
            if (!in) {
              hit = true;
              sel = -1;
              break;
            }
          } else if (tiMatch(cur->exc.ti, cl.tis[0])) {
            hit = true;
            sel = typeId(cl.tis[0]);
            break;
          }
        }
        if (hit || p->cleanup) {
          fr->regs[lp.dst] = Value(cur->exc.obj);
          fr->regs[lp.dst + 1] = Value((u64)(uint32_t)sel);
          fr->pc++;
          return;
        }
      }
      popFrame();
      if (cur->st.empty()) {
        error("exception", "uncaught exception " + (cur->excWhere ? *cur->excWhere : std::string()));
      }
    }
  }
  int typeId(u64 ti) { return (int)idOf(ti) + 1; }
  void doThrow(u64 obj, u64 ti) {
    basesOf(ti);
    cur->excWhere = std::make_shared<std::string>((tiname.count(ti) ? tiname[ti] : std::string("?")) + " thrown in " + where());
    cur->exc.obj = obj;
    cur->exc.ti = ti;
    // phase 1 search for a handler so that an escaping exception is reported where it was thrown
    unwind();
  }

  void stepCall(Ins &in) {
    CallX *c = (CallX *)in.x;
    Func *callee = c->fn;
    int b = c->builtin;
    uint8_t sub = in.sub;
    if (!c->callee) {
      u64 a = conc(get(c->fop));
      auto it = faddr.find(a);
      if (it == faddr.end()) error("memory", "call through a bad function pointer");
      // resolve models/builtins
      CallX tmp;
      Ins ti;
      resolve(&tmp, it->second->F, ti);
      callee = tmp.fn;
      b = tmp.builtin;
      sub = ti.sub;
      if (b == B_UNSUP) unsupported("external " + it->second->F->getName().str());
    }
    if (callee) {
      // gather args
      std::vector<Value> av;
      size_t na = std::min(c->args.size(), callee->decoded || true ? c->args.size() : 0);
      for (size_t i = 0; i < na; i++)
        for (int k = 0; k < c->nflat[i]; k++) av.push_back(getN(c->args[i], k));
      std::vector<u64> bvAlloc;
      size_t pos = 0;
      for (size_t i = 0; i < na; i++) {
        if (c->byval[i]) {
          u64 src = conc(av[pos]);
          u64 a = cur->mem.add(newObj(c->byval[i], 's', false));
          memCopy(a, src, c->byval[i]);
          bvAlloc.push_back(idOf(a));
          av[pos] = Value(a);
        }
        pos += c->nflat[i];
      }
      pushFrame(callee);
      Frame *n = cur->st.back();
      n->allocas = bvAlloc;
      size_t lim = std::min(av.size(), (size_t)(callee->F->arg_empty() ? 0 : callee->nslots));
      // only copy as many flats as the callee has argument slots
      size_t argn = 0;
      for (auto &A : callee->F->args()) argn += nflatCached(A.getType());
      if (argn < lim) lim = argn;
      for (size_t i = 0; i < lim; i++) n->regs[i] = av[i];
      fr = cur->top();
      return;
    }
    Value r;
    bool jumped = false;
    builtin(b, sub, in, c, r, jumped);
    if (jumped) return;
    if (in.dst >= 0 && c->nret == 1) set(in.dst, r);
    finishCall(c);
  }
  std::unordered_map<llvm::Type *, int> nfc;
  int nflatCached(llvm::Type *T) {
    auto it = nfc.find(T);
    if (it != nfc.end()) return it->second;
    return nfc[T] = nflat(T);
  }
  void finishCall(CallX *c) {
    if (c->invoke) goEdge(c->e0);
    else fr->pc++;
  }
  void builtin(int b, uint8_t sub, Ins &in, CallX *c, Value &r, bool &jumped) {
    auto A = [&](int i) { return get(c->args[i]); };
    switch (b) {
    case B_MALLOC: {
      u64 n = conc(A(0));
      if (n > (1ull << ASHIFT) - 64) error("memory", "huge allocation");
      r = Value(cur->mem.add(newObj(n, 'h', false)));
      break;
    }
    case B_CALLOC: {
      u64 n = conc(A(0)), m = conc(A(1));
      r = Value(cur->mem.add(newObj(n * m, 'h', true)));
      break;
    }
    case B_REALLOC: {
      u64 p = conc(A(0)), n = conc(A(1));
      u64 q = cur->mem.add(newObj(n, 'h', false));
      if (p) {
        MemObj *o = cur->mem.get(idOf(p));
        if (!o || offOf(p)) error("memory", "realloc of a bad pointer");
        memCopy(q, p, std::min(n, o->size));
        cur->mem.kill(idOf(p));
      }
      r = Value(q);
      break;
    }
    case B_FREE: {
      u64 p = conc(A(0));
      if (p) {
        MemObj *o = cur->mem.get(idOf(p));
        if (!o) error("memory", "double free or free of a wild pointer");
        if (offOf(p) || o->kind != 'h') error("memory", "free of a pointer that was not allocated");
        cur->mem.kill(idOf(p));
      }
      break;
    }
    case B_MEMCPY: {
      u64 n = conc(A(2)), d = conc(A(0)), s = conc(A(1));
      memCopy(d, s, n);
      r = Value(d);
      break;
    }
    case B_MEMSET: {
      u64 n = conc(A(2)), d = conc(A(0));
      Value v = C.extract(A(1), 0, 8, c->wid[1]);
      if (n) objFor(d, n, "write", true);
      if (!v.e && n) {
        MemObj *o = objFor(d, n, "write", true);
        memset(o->data + offOf(d), (int)v.c, n);
        if (o->init) memset(o->init + offOf(d), 1, n);
        if (o->sym) memset(o->sym + offOf(d), 0, n * sizeof(Expr *));
      } else
        for (u64 i = 0; i < n; i++) storeN(d + i, v, 1, 8);
      r = Value(d);
      break;
    }
    case B_MEMCMP: case B_BCMP: {
      u64 n = conc(A(2)), p = conc(A(0)), q = conc(A(1));
      if (n) {
        objFor(p, n, "read", false);
        objFor(q, n, "read", false);
      }
      // result from the last byte backwards
      r = Value((u64)0);
      for (u64 i = n; i-- > 0;) {
        Value x = peekByte(p + i), y = peekByte(q + i);
        Value eq = C.cmp(O_EQ, x, y, 8);
        Value d = b == B_BCMP ? Value(1) : C.bin(O_SUB, C.zext(x, 8, 32), C.zext(y, 8, 32), 32);
        r = C.ite(eq, r, d, 32);
      }
      break;
    }
    case B_MEMCHR: {
      u64 n = conc(A(2)), p = conc(A(0));
      Value ch = C.extract(A(1), 0, 8, c->wid[1]);
      bool hayConc = true;
      u64 avail = 0;
      MemObj *o = n ? cur->mem.get(idOf(p)) : nullptr;
      if (n && !o) objFor(p, n, "read", false);
      if (o) avail = o->size > offOf(p) ? o->size - offOf(p) : 0;
      if (n > avail) n = avail; // memchr may stop early; reading past is caught below
      std::vector<Value> h(n);
      for (u64 i = 0; i < n; i++) {
        h[i] = peekByte(p + i);
        if (h[i].e) hayConc = false;
      }
      if (hayConc || n <= 1) {
        r = Value((u64)0);
        for (u64 i = n; i-- > 0;) r = C.ite(C.cmp(O_EQ, h[i], ch, 8), Value(p + i), r, 64);
      } else {
        // symbolic haystack: fork on the position
        r = Value((u64)0);
        for (u64 i = 0; i < n; i++) {
          Value eq = C.cmp(O_EQ, h[i], ch, 8);
          if (decide(eq)) {
            r = Value(p + i);
            break;
          }
        }
      }
      break;
    }
    case B_STRLEN: {
      u64 p = conc(A(0));
      u64 i = 0;
      while (true) {
        Value x = peekByte(p + i);
        if (decide(C.cmp(O_EQ, x, Value((u64)0), 8))) break;
        i++;
      }
      r = Value(i);
      break;
    }
    case B_NOP0: case B_LIFE: case B_STACKSAVE: r = Value((u64)0); break;
    case B_ISCONST: r = Value((u64)0); break;
    case B_EXPECT: r = A(0); break;
    case B_ABORT: error("abort", "abort called"); break;
    case B_TRAP: error("abort", "trap executed"); break;
    case B_ASSERT: error("abort", "assertion failed: " + cstr(conc(A(0)))); break;
    case B_EXIT: error("exit", "process exit called"); break;
    case B_TERMINATE: error("abort", "std::terminate called"); break;
    case B_ALLOC_EXC: r = Value(cur->mem.add(newObj(conc(A(0)), 'e', false))); break;
    case B_FREE_EXC: {
      u64 p = conc(A(0));
      if (cur->mem.get(idOf(p))) cur->mem.kill(idOf(p));
      break;
    }
    case B_EXC_CTOR: {
      u64 p = conc(A(0));
      u64 vt = extobj.count("$excvt") ? extobj["$excvt"] : 0;
      storeN(p, Value(vt + 16), 8, 64);
      break;
    }
    case B_THROW: {
      u64 o = conc(A(0)), t = conc(A(1));
      doThrow(o, t);
      jumped = true;
      break;
    }
    case B_THROWSTD: {
      static const char *N[] = {"_ZTISt11logic_error", "_ZTISt12length_error", "_ZTISt12out_of_range", "_ZTISt16invalid_argument", "_ZTISt9bad_alloc", "_ZTISt8bad_cast", "_ZTISt17bad_function_call", "_ZTISt13runtime_error"};
      u64 o = cur->mem.add(newObj(16, 'e', true));
      storeN(o, Value(extobj["$excvt"] + 16), 8, 64);
      doThrow(o, extobj[N[sub]]);
      jumped = true;
      break;
    }
    case B_BEGIN_CATCH: {
      u64 o = conc(A(0));
      Exc e = cur->exc;
      e.obj = o;
      cur->caught.push_back(e);
      r = Value(o);
      break;
    }
    case B_END_CATCH: {
      if (!cur->caught.empty()) cur->caught.pop_back();
      break;
    }
    case B_RETHROW: {
      if (cur->caught.empty()) error("abort", "rethrow without exception");
      Exc e = cur->caught.back();
      doThrow(e.obj, e.ti);
      jumped = true;
      break;
    }
    case B_EH_TYPEID: r = Value((u64)(uint32_t)typeId(conc(A(0)))); break;
    case B_GUARD_ACQ: {
      u64 p = conc(A(0));
      Value v = loadN(p, 1, 8);
      r = Value((u64)(v.c == 0));
      break;
    }
    case B_GUARD_REL: storeN(conc(A(0)), Value(1), 1, 8); break;
    case B_ERRNO: r = Value(errnoAddr); break;
    case B_MINMAX: {
      unsigned w = in.w;
      Value x = A(0), y = A(1);
      Value lt = sub < 2 ? C.cmp(O_ULT, x, y, w) : C.cmp(O_SLT, x, y, w);
      r = (sub & 1) ? C.ite(lt, y, x, w) : C.ite(lt, x, y, w);
      break;
    }
    case B_ABS: {
      Value x = A(0);
      r = C.ite(C.cmp(O_SLT, x, Value((u64)0), in.w), C.bin(O_SUB, Value((u64)0), x, in.w), x, in.w);
      break;
    }
    case B_OVF: {
      unsigned w = c->wid[0];
      Value x = A(0), y = A(1);
      Value v, o;
      if (x.e || y.e) {
        if (sub == 0) v = C.bin(O_ADD, x, y, w), o = C.cmp(O_ULT, v, x, w);
        else if (sub == 1) v = C.bin(O_SUB, x, y, w), o = C.cmp(O_ULT, x, y, w);
        else if (w <= 32) {
          Op op = (sub % 3 == 0) ? O_ADD : (sub % 3 == 1) ? O_SUB : O_MUL;
          bool sg = sub >= 3;
          Value X = sg ? C.sext(x, w, 64) : C.zext(x, w, 64), Y = sg ? C.sext(y, w, 64) : C.zext(y, w, 64);
          Value R = C.bin(op, X, Y, 64);
          v = C.extract(R, 0, w, 64);
          Value back = sg ? C.sext(v, w, 64) : C.zext(v, w, 64);
          o = C.bin(O_XOR, C.cmp(O_EQ, back, R, 64), Value(1), 1);
        } else {
          x = Value(conc(x));
          y = Value(conc(y));
        }
      }
      if (!x.e && !y.e && !v.e) {
        __int128 X, Y, R;
        if (sub < 3) X = (__int128)(x.c & maskw(w)), Y = (__int128)(y.c & maskw(w));
        else X = sextw(x.c, w), Y = sextw(y.c, w);
        R = sub % 3 == 0 ? X + Y : sub % 3 == 1 ? X - Y : X * Y;
        u64 tr = (u64)R & maskw(w);
        v = Value(tr);
        o = Value((u64)(sub < 3 ? (R != (__int128)tr) : (R != (__int128)sextw(tr, w))));
      }
      fr->regs[in.dst] = v;
      fr->regs[in.dst + 1] = o;
      finishCall(c);
      jumped = true;
      break;
    }
    case B_SAT: {
      unsigned w = in.w;
      Value x = A(0), y = A(1);
      if (sub == 0) r = C.ite(C.cmp(O_ULT, x, y, w), Value((u64)0), C.bin(O_SUB, x, y, w), w);
      else {
        Value s = C.bin(O_ADD, x, y, w);
        r = C.ite(C.cmp(O_ULT, s, x, w), Value(maskw(w)), s, w);
      }
      break;
    }
    case B_CTPOP: r = Value((u64)__builtin_popcountll(conc(A(0)) & maskw(in.w))); break;
    case B_CTLZ: {
      u64 x = conc(A(0)) & maskw(in.w);
      r = Value((u64)(x ? __builtin_clzll(x) - (64 - in.w) : in.w));
      break;
    }
    case B_CTTZ: {
      u64 x = conc(A(0)) & maskw(in.w);
      r = Value((u64)(x ? __builtin_ctzll(x) : in.w));
      break;
    }
    case B_BSWAP: {
      Value x = A(0), acc = Value((u64)0);
      unsigned n = in.w / 8;
      acc = C.extract(x, 0, 8, in.w);
      for (unsigned i = 1; i < n; i++) acc = C.concat(acc, 8 * i, C.extract(x, 8 * i, 8, in.w), 8);
      r = acc;
      break;
    }
    case B_FSH: {
      u64 s = conc(A(2)) % in.w;
      Value hi = A(0), lo = A(1);
      if (sub == 0) r = s ? C.bin(O_OR, C.bin(O_SHL, hi, Value(s), in.w), C.bin(O_LSHR, lo, Value(in.w - s), in.w), in.w) : hi;
      else r = s ? C.bin(O_OR, C.bin(O_SHL, hi, Value(in.w - s), in.w), C.bin(O_LSHR, lo, Value(s), in.w), in.w) : lo;
      break;
    }
    case B_OBJSIZE: r = Value(get(c->args[1]).c & 1 ? 0 : maskw(in.w)); break;
    // ---- harness interface
    case B_SYMBOLIC: {
      u64 p = conc(A(0)), n = conc(A(1));
      std::string nm = cstr(conc(A(2)));
      SymIn si;
      si.name = nm;
      MemObj *o = objFor(p, n, "write", true);
      if (!o->sym) o->sym = (Expr **)calloc(o->size ? o->size : 1, sizeof(Expr *));
      for (u64 i = 0; i < n; i++) {
        // variables are named by creation order on the path so that sibling paths share them
        int v = inputVar((int)cur->nchoice++, nm + "[" + std::to_string(i) + "]");
        si.vars.push_back(v);
        o->sym[offOf(p) + i] = C.var(v);
        if (o->init) o->init[offOf(p) + i] = 1;
      }
      cur->inputs.push_back(si);
      break;
    }
    case B_ASSUME: {
      Value v = A(0);
      if (c->wid[0] > 1) v = C.bin(O_XOR, C.cmp(O_EQ, v, Value((u64)0), c->wid[0]), Value(1), 1);
      v = nv(v);
      if (!v.e) {
        if (!(v.c & 1)) {
          SH->assumeKilled++;
          throw PathEnd();
        }
        break;
      }
      int d = S.decide(cur->pc, v.e);
      if (d == 0) {
        SH->assumeKilled++;
        throw PathEnd();
      }
      if (d == 2) S.add(cur->pc, v.e);
      break;
    }
    case B_ASSUME_IN: { // (u8 c, const char* set, size_t n)
      Value v = C.extract(A(0), 0, 8, c->wid[0]);
      u64 s = conc(A(1)), n = conc(A(2));
      Value acc = Value((u64)0);
      for (u64 i = 0; i < n; i++) acc = C.bin(O_OR, acc, C.cmp(O_EQ, v, peekByte(s + i), 8), 1);
      acc = nv(acc);
      if (!acc.e) {
        if (!(acc.c & 1)) {
          SH->assumeKilled++;
          throw PathEnd();
        }
        break;
      }
      int d = S.decide(cur->pc, acc.e);
      if (d == 0) {
        SH->assumeKilled++;
        throw PathEnd();
      }
      if (d == 2) S.add(cur->pc, acc.e);
      break;
    }
    case B_SXASSERT: {
      Value v = A(0);
      if (c->wid[0] > 1) v = C.bin(O_XOR, C.cmp(O_EQ, v, Value((u64)0), c->wid[0]), Value(1), 1);
      v = nv(v);
      if (!v.e) {
        SH->assertsFold++;
        if (!(v.c & 1)) error("assert", cstr(conc(A(1))));
        break;
      }
      SH->assertsSolver++;
      int q = S.check(cur->pc, v.e, true, nullptr);
      if (q == 0) break;
      if (q == 1) violation("assert", cstr(conc(A(1))), v.e, true);
      // continue on the holding side
      {
        int d = S.decide(cur->pc, v.e);
        if (d == 0) throw PathEnd();
        if (d == 2) S.add(cur->pc, v.e);
      }
      break;
    }
    case B_COVER: {
      std::string l = cstr(conc(A(0)));
      label(l);
      cur->trace.push_back(l);
      break;
    }
    case B_NOTE: cur->note = std::make_shared<std::string>(cstr(conc(A(0)))); break;
    case B_CONC: r = Value(conc(A(0))); break;
    case B_ISSYM: r = Value((u64)(A(0).e != nullptr)); break;
    case B_ALLOW_ABORT: cur->allowAbort = conc(A(0)) != 0; break;
    default: {
      std::string n = c->callee ? c->callee->getName().str() : "?";
      unsupported("external " + n);
    }
    }
  }
  std::vector<int> invars;
  int inputVar(int k, const std::string &n) {
    while ((int)invars.size() <= k) invars.push_back(C.newVar(n, false));
    return invars[k];
  }

  double fp(u64 v, unsigned w) {
    if (w == 32) {
      float f;
      uint32_t x = (uint32_t)v;
      memcpy(&f, &x, 4);
      return f;
    }
    double d;
    memcpy(&d, &v, 8);
    return d;
  }
  u64 pf(double d, unsigned w) {
    if (w == 32) {
      float f = (float)d;
      uint32_t x;
      memcpy(&x, &f, 4);
      return x;
    }
    u64 v;
    memcpy(&v, &d, 8);
    return v;
  }

  // run cur until it ends (PathEnd) ; returns normally when path completed
  void runState() {
    fr = cur->top();
    while (true) {
      Ins &in = fr->f->bb[fr->bb].ins[fr->pc];
      if ((cur->steps & 0x3fff) == 0 && (SH->stop.load() || now() > deadline)) {
        SH->incomplete++;
        throw PathEnd();
      }
      if (++cur->steps > maxSteps) {
        SH->stepLimit++;
        error("hang", "more than the allowed number of steps on one path");
      }
      switch (in.k) {
      case K_BIN: {
        Value x = get(in.a), y = get(in.b);
        if (!x.e && !y.e) {
          if ((in.sub == O_UDIV || in.sub == O_SDIV || in.sub == O_UREM || in.sub == O_SREM) && (y.c & maskw(in.w)) == 0) error("arith", "division by zero");
          fr->regs[in.dst] = Value(Ctx::evalOp((Op)in.sub, in.w, 0, x.c & maskw(in.w), y.c & maskw(in.w), 0, in.w, in.w));
        } else
          set(in.dst, C.bin((Op)in.sub, nv(x), nv(y), in.w));
        fr->pc++;
        break;
      }
      case K_CMP: {
        Value x = get(in.a), y = get(in.b);
        if (x.e) x = nv(x);
        if (y.e) y = nv(y);
        Value r;
        unsigned w = in.w;
        switch (in.sub) {
        case llvm::CmpInst::ICMP_EQ: r = C.cmp(O_EQ, x, y, w); break;
        case llvm::CmpInst::ICMP_NE: r = C.bin(O_XOR, C.cmp(O_EQ, x, y, w), Value(1), 1); break;
        case llvm::CmpInst::ICMP_ULT: r = C.cmp(O_ULT, x, y, w); break;
        case llvm::CmpInst::ICMP_ULE: r = C.cmp(O_ULE, x, y, w); break;
        case llvm::CmpInst::ICMP_UGT: r = C.cmp(O_ULT, y, x, w); break;
        case llvm::CmpInst::ICMP_UGE: r = C.cmp(O_ULE, y, x, w); break;
        case llvm::CmpInst::ICMP_SLT: r = C.cmp(O_SLT, x, y, w); break;
        case llvm::CmpInst::ICMP_SLE: r = C.cmp(O_SLE, x, y, w); break;
        case llvm::CmpInst::ICMP_SGT: r = C.cmp(O_SLT, y, x, w); break;
        case llvm::CmpInst::ICMP_SGE: r = C.cmp(O_SLE, y, x, w); break;
        default: unsupported("icmp");
        }
        set(in.dst, r);
        fr->pc++;
        break;
      }
      case K_ZEXT: set(in.dst, C.zext(get(in.a), in.w, in.w2)); fr->pc++; break;
      case K_SEXT: set(in.dst, C.sext(get(in.a), in.w, in.w2)); fr->pc++; break;
      case K_TRUNC: set(in.dst, C.extract(get(in.a), 0, in.w2, in.w)); fr->pc++; break;
      case K_COPY:
        for (u64 i = 0; i < in.imm; i++) fr->regs[in.dst + i] = getN(in.a, (int)i);
        fr->pc++;
        break;
      case K_SELECT: {
        Value c = nv(get(in.a));
        if (c.e) {
          int d = S.decide(cur->pc, c.e);
          if (d == 0) c = Value((u64)0);
          else if (d == 1) c = Value(1);
        }
        if (!c.e) {
          int src = (c.c & 1) ? in.b : in.c;
          for (u64 i = 0; i < in.imm; i++) fr->regs[in.dst + i] = getN(src, (int)i);
        } else if (in.imm == 1 && in.w != 255) set(in.dst, C.ite(c, get(in.b), get(in.c), in.w));
        else if (in.x) {
          MemX *m = (MemX *)in.x;
          for (size_t i = 0; i < m->f.size(); i++) fr->regs[in.dst + i] = C.ite(c, getN(in.b, (int)i), getN(in.c, (int)i), m->f[i].w);
        } else
          unsupported("select");
        fr->pc++;
        break;
      }
      case K_LOAD: {
        MemX *m = (MemX *)in.x;
        Value p = nv(get(in.a));
        if (m->f.size() == 1) {
          if (m->f[0].w == 255) unsupported("load of wide type");
          Value v = load(p, (m->f[0].w + 7) / 8, m->f[0].w);
          set(in.dst, v);
        } else {
          u64 a = conc(p);
          for (size_t i = 0; i < m->f.size(); i++) fr->regs[in.dst + i] = loadN(a + m->f[i].off, (m->f[i].w + 7) / 8, m->f[i].w);
        }
        fr->pc++;
        break;
      }
      case K_STORE: {
        MemX *m = (MemX *)in.x;
        u64 a = conc(nv(get(in.a)));
        for (size_t i = 0; i < m->f.size(); i++) {
          if (m->f[i].w == 255) unsupported("store of wide type");
          storeN(a + m->f[i].off, nv(getN(in.b, (int)i)), (m->f[i].w + 7) / 8, m->f[i].w);
        }
        fr->pc++;
        break;
      }
      case K_GEP: {
        GepX *g = (GepX *)in.x;
        Value p = C.bin(O_ADD, get(in.a), Value(in.imm), 64);
        for (size_t i = 0; i < g->idx.size(); i++) {
          Value k = C.sext(nv(get(g->idx[i].first)), g->w[i], 64);
          p = C.bin(O_ADD, p, C.bin(O_MUL, k, Value((u64)g->idx[i].second), 64), 64);
        }
        set(in.dst, p);
        fr->pc++;
        break;
      }
      case K_ALLOCA: {
        u64 n = conc(C.zext(get(in.a), in.w, 64));
        u64 a = cur->mem.add(newObj(in.imm * n, 's', false));
        fr->allocas.push_back(idOf(a));
        fr->regs[in.dst] = Value(a);
        fr->pc++;
        break;
      }
      case K_BR: goEdge(in.b); break;
      case K_CBR: {
        Value c = get(in.a);
        if (c.e) c = nv(c);
        if (!c.e) {
          goEdge((c.c & 1) ? in.b : in.c);
          break;
        }
        int r = S.decide(cur->pc, c.e);
        if (r == 1) goEdge(in.b);
        else if (r == 0) goEdge(in.c);
        else {
          State *n = clone();
          Value nc = C.bin(O_XOR, c, Value(1), 1);
          S.add(n->pc, nc.e);
          // position the clone on the false edge
          {
            Frame *keep = fr;
            State *kc = cur;
            cur = n;
            fr = n->top();
            goEdge(in.c);
            cur = kc;
            fr = keep;
            fr = cur->top();
          }
          Qu.push_back(n);
          S.add(cur->pc, c.e);
          goEdge(in.b);
          maybeSpawn();
        }
        break;
      }
      case K_SWITCH: {
        SwX *s = (SwX *)in.x;
        Value v = nv(get(in.a));
        if (!v.e) {
          int e = s->def;
          for (auto &c : s->cases)
            if (c.first == (v.c & maskw(in.w))) {
              e = c.second;
              break;
            }
          goEdge(e);
          break;
        }
        // group by target edge's destination
        std::map<int, Value> cond; // edge -> condition
        Value any = Value((u64)0);
        std::map<int, int> tgtEdge;
        for (auto &c : s->cases) {
          Value eq = C.cmp(O_EQ, v, Value(c.first), in.w);
          any = C.bin(O_OR, any, eq, 1);
          const Edge &E = fr->f->edges[c.second];
          int key = c.second;
          auto it = tgtEdge.find(E.target);
          if (it != tgtEdge.end() && fr->f->edges[it->second].moves == E.moves) key = it->second;
          else tgtEdge.emplace(E.target, key);
          auto ci = cond.find(key);
          if (ci == cond.end()) cond[key] = eq;
          else ci->second = C.bin(O_OR, ci->second, eq, 1);
        }
        std::vector<std::pair<int, Value>> alts;
        for (auto &kv : cond) alts.push_back({kv.first, kv.second});
        alts.push_back({s->def, C.bin(O_XOR, any, Value(1), 1)});
        std::vector<std::pair<int, Value>> feas;
        for (auto &a : alts) {
          Value k = nv(a.second);
          if (!k.e) {
            if (k.c & 1) feas.push_back({a.first, k});
            continue;
          }
          int d = S.decide(cur->pc, k.e);
          if (d) feas.push_back({a.first, k});
        }
        if (feas.empty()) throw PathEnd();
        for (size_t i = 1; i < feas.size(); i++) {
          State *n = clone();
          if (feas[i].second.e) S.add(n->pc, feas[i].second.e);
          State *kc = cur;
          cur = n;
          fr = n->top();
          goEdge(feas[i].first);
          cur = kc;
          fr = cur->top();
          Qu.push_back(n);
        }
        if (feas[0].second.e) S.add(cur->pc, feas[0].second.e);
        goEdge(feas[0].first);
        maybeSpawn();
        break;
      }
      case K_RET: {
        std::vector<Value> rv;
        Value r1;
        if (in.imm == 1) r1 = get(in.a);
        else
          for (u64 i = 0; i < in.imm; i++) rv.push_back(getN(in.a, (int)i));
        popFrame();
        if (cur->st.empty()) return; // path complete
        fr = cur->top();
        Ins &ci = fr->f->bb[fr->bb].ins[fr->pc];
        CallX *c = (CallX *)ci.x;
        if (ci.dst >= 0) {
          if (in.imm == 1) set(ci.dst, r1);
          else
            for (u64 i = 0; i < in.imm; i++) fr->regs[ci.dst + i] = rv[i];
        }
        finishCall(c);
        break;
      }
      case K_CALL: stepCall(in); break;
      case K_UNREACHABLE: error("abort", "reached unreachable code"); break;
      case K_EXTRACTV:
        for (u64 i = 0; i < in.imm; i++) fr->regs[in.dst + i] = getN(in.a, in.b + (int)i);
        fr->pc++;
        break;
      case K_INSERTV:
        for (u64 i = 0; i < in.imm; i++) fr->regs[in.dst + i] = getN(in.a, (int)i);
        for (int i = 0; i < in.w; i++) fr->regs[in.dst + in.b + i] = getN(in.c, i);
        fr->pc++;
        break;
      case K_RESUME:
        popFrame();
        if (cur->st.empty()) error("exception", "uncaught exception " + (cur->excWhere ? *cur->excWhere : std::string()));
        unwind();
        break;
      case K_RMW: {
        MemX *m = (MemX *)in.x;
        u64 a = conc(get(in.a));
        unsigned n = (in.w + 7) / 8;
        (void)m;
        Value old = loadN(a, n, in.w), v = get(in.b), nvv;
        switch (in.sub) {
        case llvm::AtomicRMWInst::Add: nvv = C.bin(O_ADD, old, v, in.w); break;
        case llvm::AtomicRMWInst::Sub: nvv = C.bin(O_SUB, old, v, in.w); break;
        case llvm::AtomicRMWInst::Xchg: nvv = v; break;
        case llvm::AtomicRMWInst::And: nvv = C.bin(O_AND, old, v, in.w); break;
        case llvm::AtomicRMWInst::Or: nvv = C.bin(O_OR, old, v, in.w); break;
        default: unsupported("atomicrmw");
        }
        storeN(a, nvv, n, in.w);
        set(in.dst, old);
        fr->pc++;
        break;
      }
      case K_CMPXCHG: {
        u64 a = conc(get(in.a));
        unsigned n = (in.w + 7) / 8;
        Value old = loadN(a, n, in.w);
        Value eq = C.cmp(O_EQ, old, get(in.b), in.w);
        storeN(a, C.ite(eq, get(in.c), old, in.w), n, in.w);
        fr->regs[in.dst] = old;
        fr->regs[in.dst + 1] = eq;
        fr->pc++;
        break;
      }
      case K_FBIN: {
        double x = fp(conc(get(in.a)), in.w), y = fp(conc(get(in.b)), in.w);
        double r = in.sub == 0 ? x + y : in.sub == 1 ? x - y : in.sub == 2 ? x * y : x / y;
        fr->regs[in.dst] = Value(pf(r, in.w));
        fr->pc++;
        break;
      }
      case K_FCMP: {
        double x = fp(conc(get(in.a)), in.w), y = fp(conc(get(in.b)), in.w);
        bool un = x != x || y != y;
        unsigned p = in.sub;
        bool r = ((p & 1) && x == y && !un) || ((p & 2) && x > y) || ((p & 4) && x < y) || ((p & 8) && un);
        fr->regs[in.dst] = Value((u64)r);
        fr->pc++;
        break;
      }
      case K_FCAST: {
        u64 v = conc(get(in.a));
        using llvm::Instruction;
        u64 r = 0;
        switch (in.imm) {
        case Instruction::UIToFP: r = pf((double)(v & maskw(in.w)), in.w2); break;
        case Instruction::SIToFP: r = pf((double)sextw(v, in.w), in.w2); break;
        case Instruction::FPToUI: r = (u64)fp(v, in.w) & maskw(in.w2); break;
        case Instruction::FPToSI: r = (u64)(i64)fp(v, in.w) & maskw(in.w2); break;
        default: r = pf(fp(v, in.w), in.w2);
        }
        fr->regs[in.dst] = Value(r);
        fr->pc++;
        break;
      }
      case K_NOP: fr->pc++; break;
      default: {
        std::string s;
        llvm::raw_string_ostream os(s);
        in.I->print(os);
        unsupported("instruction " + s);
      }
      }
    }
  }

  void flushStats() {
    SH->q += S.st.queries;
    SH->qsat += S.st.sat;
    SH->qunsat += S.st.unsat;
    SH->qunk += S.st.unknown;
    SH->qcache += S.st.cachehit;
    SH->qus += S.st.us;
    SH->domdec += S.st.domdec;
    S.st = SolverStats();
  }
  int spawnTick = 0;
  void maybeSpawn() {
    if (Qu.empty()) return;
    if (SH->active.load() >= workers) return;
    if ((++spawnTick & 3) != 0) return;
    int a = SH->active.load();
    if (a >= workers || !SH->active.compare_exchange_strong(a, a + 1)) return;
    size_t half = (Qu.size() + 1) / 2;
    pid_t pid = fork();
    if (pid < 0) {
      SH->active--;
      return;
    }
    SH->spawned++;
    if (pid == 0) {
      S.st = SolverStats();
      steps0 = 0;
      State *mine = cur;
      std::deque<State *> keep(Qu.begin(), Qu.begin() + half);
      for (size_t i = half; i < Qu.size(); i++) delete Qu[i];
      Qu = keep;
      (void)mine; // current state belongs to the parent
      explore();
      flushStats();
      SH->active--;
      fflush(stdout);
      _exit(0);
    }
    for (size_t i = 0; i < half; i++) delete Qu[i];
    Qu.erase(Qu.begin(), Qu.begin() + half);
  }
  u64 steps0 = 0;
  void explore() {
    u64 n = 0;
    while (!Qu.empty()) {
      if (SH->stop.load()) break;
      if ((n++ & 15) == 0) maybeSpawn();
      if (Qu.empty()) break;
      if ((n & 15) == 0 && now() > deadline) {
        SH->incomplete += Qu.size();
        break;
      }
      if (SH->nviol.load() && firstViol == 0) firstViol = now();
      if (firstViol && now() - firstViol > stopAfterViol) {
        SH->stop = 1;
        break;
      }
      cur = Qu.back();
      Qu.pop_back();
      u64 s0 = cur->steps;
      try {
        runState();
        SH->paths++;
        if (pathz3) {
          // confirm with the SMT solver that the completed path's condition is satisfiable
          std::vector<uint8_t> m;
          u64 np = SH->paths;
          bool want = (np & (np - 1)) == 0 || np % 997 == 0;
          // (a condition without multi-byte terms is satisfiable by construction: every byte's domain is non-empty)
          int r = !want && cur->pc.multi.empty() && np % 32 ? 2 : S.checkAll(cur->pc, nullptr, false, want ? &m : nullptr);
          if (r == 1 && want) sample(m);
          if (r == 1) SH->pathsSat++;
          else if (r == 0) unsoundPath();
        }
      } catch (PathEnd &) {
      }
      SH->steps += cur->steps - s0;
      delete cur;
      cur = nullptr;
      if ((n & 255) == 0) flushStats();
    }
  }
  void sample(const std::vector<uint8_t> &m) {
    u64 n = SH->nsamples++;
    if (n >= 40) return;
    std::string p = outdir + "/s" + std::to_string(n) + ".json";
    FILE *f = fopen(p.c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"inputs\":[");
    bool first = true;
    for (auto &in : cur->inputs) {
      fprintf(f, "%s{\"name\":\"", first ? "" : ",");
      esc(f, in.name);
      fprintf(f, "\",\"hex\":\"");
      for (int v : in.vars) fprintf(f, "%02x", v < (int)m.size() ? m[v] : 0);
      fprintf(f, "\"}");
      first = false;
    }
    fprintf(f, "],\"covers\":[");
    first = true;
    for (auto &l : cur->trace) {
      fprintf(f, "%s\"", first ? "" : ",");
      esc(f, l);
      fprintf(f, "\"");
      first = false;
    }
    fprintf(f, "]}\n");
    fclose(f);
  }
  void unsoundPath() {
    SH->unsupported++;
    lk();
    int n = SH->nunsup;
    if (n < 16) {
      strncpy(SH->unsup[n], "internal: completed path has unsatisfiable condition", 159);
      SH->nunsup++;
    }
    ul();
  }
  bool runCtors() {
    auto *G = M->getNamedGlobal("llvm.global_ctors");
    std::vector<std::pair<u64, llvm::Function *>> l;
    if (G && G->hasInitializer())
      if (auto *CA = dyn_cast<llvm::ConstantArray>(G->getInitializer()))
        for (auto &op : CA->operands()) {
          auto *CS = cast<llvm::ConstantStruct>(op);
          if (auto *F = dyn_cast<llvm::Function>(CS->getOperand(1))) l.push_back({cast<llvm::ConstantInt>(CS->getOperand(0))->getZExtValue(), F});
        }
    std::stable_sort(l.begin(), l.end(), [](auto &x, auto &y) { return x.first < y.first; });
    for (auto &p : l) {
      cur = base;
      pushFrame(getFunc(p.second));
      try {
        runState();
      } catch (PathEnd &) {
        fprintf(stderr, "sx: static initialisation failed in %s\n", p.second->getName().str().c_str());
        for (int i = 0; i < SH->nunsup; i++) fprintf(stderr, "   %s\n", SH->unsup[i]);
        return false;
      }
    }
    return true;
  }
};

int main(int argc, char **argv) {
  std::string bc, entry = "sx_main", out = ".";
  int workers = 8;
  double tmax = 600;
  u64 steps = 20000000;
  int maxv = 12;
  long arg = -1;
  std::vector<std::string> params;
  bool pathz3 = true;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--entry") entry = argv[++i];
    else if (a == "--out") out = argv[++i];
    else if (a == "--workers") workers = atoi(argv[++i]);
    else if (a == "--time") tmax = atof(argv[++i]);
    else if (a == "--steps") steps = strtoull(argv[++i], 0, 10);
    else if (a == "--maxviol") maxv = atoi(argv[++i]);
    else if (a == "--arg") params.push_back(argv[++i]);
    else if (a == "--no-pathz3") pathz3 = false;
    else bc = a;
  }
  (void)arg;
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  llvm::LLVMContext LC;
  llvm::SMDiagnostic err;
  auto M = llvm::parseIRFile(bc, err, LC);
  if (!M) {
    err.print("sx", llvm::errs());
    return 3;
  }
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  Engine E(std::move(M));
  E.outdir = out;
  E.workers = workers;
  E.maxSteps = steps;
  E.maxViol = maxv;
  E.pathz3 = pathz3;
  double t0 = now();
  E.deadline = t0 + tmax;
  E.setup();
  for (const char *n : {"_ZTISt11logic_error", "_ZTISt12length_error", "_ZTISt12out_of_range", "_ZTISt16invalid_argument", "_ZTISt9bad_alloc", "_ZTISt8bad_cast", "_ZTISt17bad_function_call", "_ZTISt13runtime_error"}) {
    u64 a = E.tiByName(n);
    E.extobj[n] = a;
    E.extTi(n);
    // when the module declares it, the declaration and the table share one object
  }
  E.extobj["$excvt"] = E.extVtable("$excvt");
  E.workers = 1;
  if (!E.runCtors()) return 3;
  if (SH->nviol) {
    fprintf(stderr, "sx: violation during static initialisation\n");
    return 3;
  }
  SH->steps = 0;
  E.workers = workers;
  llvm::Function *F = E.M->getFunction(entry);
  if (!F) {
    fprintf(stderr, "sx: no entry %s\n", entry.c_str());
    return 3;
  }
  // integer parameters
  E.base->steps = 0;
  E.cur = E.base;
  E.pushFrame(E.getFunc(F));
  for (size_t i = 0; i < params.size(); i++) E.base->st.back()->regs[i] = Value((u64)strtoll(params[i].c_str(), 0, 0) & maskw(32));
  for (int i = 0; i < 20000; i++) SH->fn[i] = 0;
  for (auto &f : E.funcs) // functions executed from here on
    if (f.second->decoded) f.second->decoded = false, f.second->bb.clear(), f.second->consts.clear(), f.second->edges.clear(), f.second->argslot.clear();
  E.decode(E.getFunc(F));
  SH->active = 1;
  E.Qu.push_back(E.base);
  E.explore();
  E.flushStats();
  SH->active--;
  int lost = 0;
  while (true) {
    int stt;
    pid_t p = waitpid(-1, &stt, 0);
    if (p < 0) break;
    if (!WIFEXITED(stt) || WEXITSTATUS(stt)) lost++;
  }
  double wall = now() - t0;
  FILE *f = fopen((out + "/stats.json").c_str(), "w");
  fprintf(f, "{\"entry\":\"%s\",\"wall_s\":%.3f,\"paths\":%llu,\"paths_confirmed_sat\":%llu,\"assume_killed\":%llu,\"allowed_aborts\":%llu,\"violations\":%llu,\"error_paths\":%llu,\"unsupported_paths\":%llu,\"forks\":%llu,\"z3_queries\":%llu,\"z3_sat\":%llu,\"z3_unsat\":%llu,\"z3_unknown\":%llu,\"z3_cache_hits\":%llu,\"z3_time_s\":%.3f,\"domain_decisions\":%llu,\"asserts_folded\":%llu,\"asserts_by_solver\":%llu,\"instructions\":%llu,\"incomplete_states\":%llu,\"stopped_early\":%d,\"workers_lost\":%d,\"workers_spawned\":%llu",
          entry.c_str(), wall, (unsigned long long)SH->paths, (unsigned long long)SH->pathsSat, (unsigned long long)SH->assumeKilled, (unsigned long long)SH->okAbort, (unsigned long long)SH->nviol, (unsigned long long)SH->errors, (unsigned long long)SH->unsupported, (unsigned long long)SH->forks, (unsigned long long)SH->q, (unsigned long long)SH->qsat, (unsigned long long)SH->qunsat, (unsigned long long)SH->qunk, (unsigned long long)SH->qcache, SH->qus / 1e6, (unsigned long long)SH->domdec, (unsigned long long)SH->assertsFold, (unsigned long long)SH->assertsSolver, (unsigned long long)SH->steps, (unsigned long long)SH->incomplete, (int)SH->stop, lost, (unsigned long long)SH->spawned);
  fprintf(f, ",\"unsupported\":[");
  for (int i = 0; i < SH->nunsup; i++) {
    fprintf(f, "%s\"", i ? "," : "");
    E.esc(f, SH->unsup[i]);
    fprintf(f, "\"");
  }
  fprintf(f, "],\"covers\":{");
  for (int i = 0; i < SH->nlabs; i++) {
    fprintf(f, "%s\"", i ? "," : "");
    E.esc(f, SH->labs[i].n);
    fprintf(f, "\":%llu", (unsigned long long)SH->labs[i].c);
  }
  fprintf(f, "},\"functions\":[");
  bool first = true;
  for (auto &kv : E.funcs)
    if (kv.second->ordinal < 20000 && SH->fn[kv.second->ordinal]) {
      fprintf(f, "%s\"%s\"", first ? "" : ",", kv.first->getName().str().c_str());
      first = false;
    }
  fprintf(f, "]}\n");
  fclose(f);
  printf("%s: paths=%llu viol=%llu unsup=%llu incomplete=%llu z3=%llu (%.1fs) dom=%llu wall=%.1fs instr=%llu\n", entry.c_str(), (unsigned long long)SH->paths, (unsigned long long)SH->nviol, (unsigned long long)SH->unsupported, (unsigned long long)SH->incomplete, (unsigned long long)SH->q, SH->qus / 1e6, (unsigned long long)SH->domdec, wall, (unsigned long long)SH->steps);
  for (int i = 0; i < SH->nunsup; i++) printf("  unsupported: %s\n", SH->unsup[i]);
  if (lost) printf("  lost workers: %d\n", lost);
  return SH->nviol ? 1 : 0;
}
