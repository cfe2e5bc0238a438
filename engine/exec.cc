#include "exec.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <openssl/aes.h>
#include <openssl/sha.h>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"

using namespace llvm;

namespace kpx {

enum {
  I_BIN, I_CMP, I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR,
  I_SWITCH, I_RET, I_CALL, I_INVOKE, I_UNREACH, I_LANDING, I_RESUME, I_NOP, I_FREEZE, I_RMW, I_CMPXCHG,
  I_FBIN, I_FCMP, I_FCAST, I_FNEG, I_UNSUP
};

enum Builtin {
  B_NONE = 0,
  B_SYMBOLIC, B_ASSUME, B_ASSERT, B_REACH, B_OBSERVE, B_CHOOSE, B_PARAM, B_ISSYM, B_FRESH, B_CONC, B_HASH, B_PERM,
  B_CRYPTOMODE, B_STEPBUDGET, B_FAIL, B_UNSUP, B_DEBUG, B_END, B_ALLOCBUDGET, B_UNCAUGHT, B_NATIVE, B_PICK, B_MULTISYM, B_SAME, B_USE,
  B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWARR, B_DEL, B_DELARR,
  B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_BCMP, B_MEMCHR, B_STRLEN,
  B_CXA_ALLOC, B_CXA_FREE, B_CXA_THROW, B_CXA_BEGIN, B_CXA_END, B_CXA_RETHROW, B_CXA_GETPTR, B_UNWIND_RESUME,
  B_ASSERTFAIL, B_ABORT, B_EXIT, B_TERMINATE, B_NOP0, B_GUARD_ACQ, B_PUREVIRT, B_DYNCAST,
  // intrinsics
  B_I_NOP, B_I_LIFESTART, B_I_OVF, B_I_MINMAX, B_I_ABS, B_I_FSH, B_I_CTLZ, B_I_CTTZ, B_I_CTPOP, B_I_BSWAP, B_I_EXPECT,
  B_I_ASSUME, B_I_SAT, B_I_TYPEID, B_I_STACKSAVE, B_I_VASTART, B_I_VACOPY, B_I_TRAP, B_I_OBJSIZE, B_I_ISCONST, B_I_FABS
};

static const std::map<std::string, int> kBuiltins = {
  {"kp_symbolic", B_SYMBOLIC}, {"kp_assume", B_ASSUME}, {"kp_assert_", B_ASSERT}, {"kp_reach", B_REACH},
  {"kp_observe", B_OBSERVE}, {"kp_choose", B_CHOOSE}, {"kp_param", B_PARAM}, {"kp_is_symbolic", B_ISSYM},
  {"kp_fresh_hint", B_FRESH}, {"kp_concretize", B_CONC}, {"kp_ideal_hash", B_HASH}, {"kp_ideal_perm", B_PERM},
  {"kp_crypto_mode", B_CRYPTOMODE}, {"kp_step_budget", B_STEPBUDGET}, {"kp_fail", B_FAIL}, {"kp_unsupported", B_UNSUP},
  {"kp_debug", B_DEBUG}, {"kp_end_path", B_END}, {"kp_alloc_budget", B_ALLOCBUDGET}, {"kp_uncaught", B_UNCAUGHT},
  {"kp_native", B_NATIVE}, {"kp_pick", B_PICK}, {"kp_any_symbolic", B_MULTISYM}, {"kp_same", B_SAME}, {"kp_use", B_USE},
  {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE},
  {"_Znwm", B_NEW}, {"_Znam", B_NEWARR}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEWARR},
  {"_ZnwmSt11align_val_t", B_NEW}, {"_ZdlPvmSt11align_val_t", B_DEL},
  {"_ZdlPv", B_DEL}, {"_ZdlPvm", B_DEL}, {"_ZdaPv", B_DELARR}, {"_ZdaPvm", B_DELARR}, {"_ZdlPvRKSt9nothrow_t", B_DEL},
  {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_BCMP},
  {"memchr", B_MEMCHR}, {"strlen", B_STRLEN},
  {"__cxa_allocate_exception", B_CXA_ALLOC}, {"__cxa_free_exception", B_CXA_FREE}, {"__cxa_throw", B_CXA_THROW},
  {"__cxa_begin_catch", B_CXA_BEGIN}, {"__cxa_end_catch", B_CXA_END}, {"__cxa_rethrow", B_CXA_RETHROW},
  {"__cxa_get_exception_ptr", B_CXA_GETPTR}, {"_Unwind_Resume", B_UNWIND_RESUME},
  {"__assert_fail", B_ASSERTFAIL}, {"abort", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT}, {"_ZSt9terminatev", B_TERMINATE},
  {"__cxa_atexit", B_NOP0}, {"__cxa_guard_acquire", B_GUARD_ACQ}, {"__cxa_guard_release", B_NOP0}, {"__cxa_guard_abort", B_NOP0},
  {"__cxa_pure_virtual", B_PUREVIRT}, {"__dynamic_cast", B_DYNCAST},
  {"_ZSt21ios_base_library_initv", B_NOP0}, {"__cxa_thread_atexit", B_NOP0},
};

// ---------------- globals ----------------
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::unordered_map<const Function *, FnInfo *> fnInfo;
static std::unordered_map<uint32_t, FnInfo *> fnByObj;
static std::unordered_map<const GlobalValue *, uint64_t> gvAddr;
static std::map<uint64_t, std::string> externGlobals;
static std::vector<FnInfo *> allFns;
static uint64_t zti_class = 0, zti_si = 0, zti_vmi = 0;
static std::vector<State *> work;
static std::vector<Violation> violations;
static std::map<std::string, int> vioCount;
static std::map<std::string, uint64_t> reached;
static std::map<std::string, uint64_t> incompleteReasons;
static uint64_t nPathsDone = 0, nPathsAssume = 0, nForks = 0, nInstr = 0, nAsserts = 0, nAssertQ = 0, nStatesKilled = 0;
static uint64_t gMaxPaths = ~0ull, gMaxInstr = ~0ull, gMaxStepsPath = 400000000ull;
static std::vector<uint64_t> gParams;
static int gSamples = 4;
static size_t gMaxVioPerKey = 2;
static std::string repoPrefix;
static std::set<std::string> modelCalls;
struct SampleRec { std::vector<std::pair<std::string, std::string>> inputs, obs; };
static std::vector<SampleRec> samples;
static uint64_t sampleSeen = 0;
static std::vector<std::string> debugOut;
static bool gTrace = false;
static uint64_t gSeed = 1;
static bool gStop = false;
static uint64_t gMemLimitMB = 6000;

// ---------------- memory ----------------
static std::unordered_set<std::string> whatPool;
static const char *internStr(const std::string &s) { return whatPool.insert(s).first->c_str(); }

static uint64_t liveBytes = 0;
static void freeObj(MemObj *o) {
  if (--o->rc) return;
  free(o->data); free(o->sym); free(o->undef);
  liveBytes -= o->size; delete o;
}
static void freeChunk(Chunk *c) {
  if (--c->rc) return;
  for (int i = 0; i < kChunk; i++) if (c->o[i]) freeObj(c->o[i]);
  delete c;
}
State::State(const State &o)
    : frames(o.frames), regs(o.regs), chunks(o.chunks), nextObj(o.nextObj), freeIds(o.freeIds), pc(o.pc), inputs(o.inputs),
      nameCount(o.nameCount), obs(o.obs), excs(o.excs), caught(o.caught), uncaught(o.uncaught), hashes(o.hashes), perms(o.perms),
      cryptoMode(o.cryptoMode), steps(o.steps), depth(o.depth), stepMark(o.stepMark), stepBudget(o.stepBudget), stepLabel(o.stepLabel),
      allocBytes(o.allocBytes), allocBudget(o.allocBudget), freshCount(o.freshCount) {
  for (auto c : chunks) if (c) c->rc++;
}
State::~State() { for (auto c : chunks) if (c) freeChunk(c); }

static inline MemObj *getObj(State &s, uint32_t id) {
  uint32_t c = id / kChunk;
  if (c >= s.chunks.size() || !s.chunks[c]) return nullptr;
  return s.chunks[c]->o[id % kChunk];
}
static Chunk *chunkW(State &s, uint32_t id) {
  uint32_t c = id / kChunk;
  if (c >= s.chunks.size()) s.chunks.resize(c + 1, nullptr);
  if (!s.chunks[c]) { s.chunks[c] = new Chunk(); s.chunks[c]->rc = 1; memset(s.chunks[c]->o, 0, sizeof s.chunks[c]->o); }
  if (s.chunks[c]->rc > 1) {
    Chunk *n = new Chunk(*s.chunks[c]); n->rc = 1;
    for (int i = 0; i < kChunk; i++) if (n->o[i]) n->o[i]->rc++;
    s.chunks[c]->rc--; s.chunks[c] = n;
  }
  return s.chunks[c];
}
static MemObj *getObjW(State &s, uint32_t id) {
  Chunk *c = chunkW(s, id);
  MemObj *&o = c->o[id % kChunk];
  if (o->rc > 1) {
    MemObj *n = new MemObj(*o); n->rc = 1;
    n->data = (uint8_t *)malloc(o->size + 1); memcpy(n->data, o->data, o->size);
    if (o->sym) { n->sym = (Cell *)malloc(sizeof(Cell) * (o->size + 1)); memcpy(n->sym, o->sym, sizeof(Cell) * o->size); }
    if (o->undef) { size_t nw = (o->size + 63) / 64; n->undef = (uint64_t *)malloc(8 * nw + 8); memcpy(n->undef, o->undef, 8 * nw); }
    o->rc--; o = n; liveBytes += n->size;
  }
  return o;
}
static void fillUndef(MemObj *o) {
  size_t nw = (o->size + 63) / 64;
  if (!o->undef) o->undef = (uint64_t *)malloc(8 * nw + 8);
  memset(o->undef, 0xff, 8 * nw);
  if (o->size % 64 && nw) o->undef[nw - 1] = (1ull << (o->size % 64)) - 1;
  o->nundef = o->size;
  if (o->sym) { free(o->sym); o->sym = nullptr; o->nsym = 0; }
}
static uint64_t allocObj(State &s, uint64_t size, ObjKind kind, const char *what, bool undef) {
  uint32_t id;
  if (s.freeIds.size() > 16384) { id = s.freeIds.front(); s.freeIds.pop_front(); }
  else id = s.nextObj++;
  Chunk *c = chunkW(s, id);
  if (c->o[id % kChunk]) freeObj(c->o[id % kChunk]);
  MemObj *o = new MemObj();
  o->rc = 1; o->size = (uint32_t)size; o->kind = kind; o->alive = true; o->readonly = false;
  o->data = (uint8_t *)calloc(size + 1, 1); o->sym = nullptr; o->undef = nullptr; o->nundef = 0; o->nsym = 0; o->what = what; o->aux = 0;
  liveBytes += size;
  if (undef && size) fillUndef(o);
  c->o[id % kChunk] = o;
  return ((uint64_t)id << 32) | kBase;
}
static void killObj(State &s, uint32_t id) {
  Chunk *c = chunkW(s, id);
  MemObj *o = c->o[id % kChunk];
  if (!o) return;
  MemObj *n = new MemObj(*o);
  n->rc = 1; n->alive = false; n->data = nullptr; n->sym = nullptr; n->undef = nullptr; n->nundef = n->nsym = 0;
  liveBytes += n->size;
  freeObj(o);
  c->o[id % kChunk] = n;
  s.freeIds.push_back(id);
}

// byte-level access (bounds already checked)
static inline bool undefBit(MemObj *o, uint32_t i) { return o->undef && ((o->undef[i >> 6] >> (i & 63)) & 1); }
static inline void clearUndef(MemObj *o, uint32_t off, uint32_t n) {
  if (!o->undef) return;
  for (uint32_t i = off; i < off + n; i++) {
    uint64_t b = 1ull << (i & 63);
    if (o->undef[i >> 6] & b) { o->undef[i >> 6] &= ~b; o->nundef--; }
  }
  if (!o->nundef) { free(o->undef); o->undef = nullptr; }
}
static uint64_t undefSerial = 0;
static Expr *freshUndef(unsigned w, const char *what) {
  Expr *r = nullptr;
  while (w) { unsigned k = w > 8 ? 8 : w; Expr *e = mkVar(std::string("undef:") + what, k, true, -1, (uint32_t)undefSerial++); r = r ? mkConcat(e, r) : e; w -= k; }
  return r;
}
static Expr *cellByte(const Cell &c) {
  return mkExtract(c.e, c.idx * 8, 8);
}
static Val loadObjByte(State &s, uint32_t id, uint32_t off) {
  MemObj *o = getObj(s, id);
  if (o->nundef && undefBit(o, off)) {
    Expr *u = freshUndef(8, o->what);
    MemObj *w = getObjW(s, id);
    if (!w->sym) w->sym = (Cell *)calloc(w->size + 1, sizeof(Cell));
    w->sym[off] = Cell{u, 0, 0}; w->nsym++;
    clearUndef(w, off, 1);
    return Val{0, u};
  }
  if (o->sym && o->sym[off].e) return Val{0, cellByte(o->sym[off])};
  return CV(o->data[off]);
}
static void storeObjByte(State &s, uint32_t id, uint32_t off, Val v) {
  MemObj *o = getObjW(s, id);
  clearUndef(o, off, 1);
  if (v.e && !v.e->isConst()) {
    if (!o->sym) o->sym = (Cell *)calloc(o->size + 1, sizeof(Cell));
    if (!o->sym[off].e) o->nsym++;
    o->sym[off] = Cell{v.e, 0, 0};
  } else {
    if (o->sym && o->sym[off].e) { o->sym[off].e = nullptr; o->nsym--; }
    o->data[off] = (uint8_t)(v.e ? v.e->val : v.v);
  }
}
static Val norm(Expr *e) { if (e->isConst()) return CV(e->val); return Val{0, e}; }
static inline Expr *E(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.v, w); }

// load n bytes as integer of width w (w<=64)
static Val loadObj(State &s, uint32_t id, uint32_t off, unsigned n, unsigned w) {
  MemObj *o = getObj(s, id);
  bool slow = false;
  if (o->nundef) for (unsigned i = 0; i < n; i++) if (undefBit(o, off + i)) { slow = true; break; }
  if (!slow && o->nsym) for (unsigned i = 0; i < n; i++) if (o->sym[off + i].e) { slow = true; break; }
  if (!slow) {
    uint64_t v = 0; memcpy(&v, o->data + off, n);
    return CV(v & maskw(w));
  }
  // whole-word hit
  if (o->sym && o->sym[off].e && !(o->nundef)) {
    Expr *e = o->sym[off].e; uint32_t k = o->sym[off].idx;
    bool same = true;
    for (unsigned i = 1; i < n; i++) if (o->sym[off + i].e != e || o->sym[off + i].idx != k + i) { same = false; break; }
    if (same && k * 8 + w <= e->w) return norm(mkExtract(e, k * 8, w));
  }
  Expr *r = nullptr;
  for (unsigned i = 0; i < n; i++) {
    Val b = loadObjByte(s, id, off + i);
    Expr *be = E(b, 8);
    if (i == n - 1 && w % 8) be = mkExtract(be, 0, w % 8);
    r = r ? mkConcat(be, r) : be;
  }
  return norm(r);
}
static void storeObj(State &s, uint32_t id, uint32_t off, unsigned n, unsigned w, Val v) {
  MemObj *o = getObjW(s, id);
  if (o->undef) clearUndef(o, off, n);
  if (!v.e || v.e->isConst()) {
    uint64_t x = v.e ? v.e->val : v.v;
    if (o->nsym) for (unsigned i = 0; i < n; i++) if (o->sym[off + i].e) { o->sym[off + i].e = nullptr; o->nsym--; }
    memcpy(o->data + off, &x, n);
    return;
  }
  if (!o->sym) o->sym = (Cell *)calloc(o->size + 1, sizeof(Cell));
  Expr *e = v.e;
  if (w < n * 8) e = mkZext(e, n * 8);
  for (unsigned i = 0; i < n; i++) {
    if (n == 1) { Cell &c = o->sym[off]; if (!c.e) o->nsym++; c = Cell{e, 0, 0}; break; }
    // concrete bytes of partially symbolic words stay concrete
    uint64_t m = 0xffull << (i * 8);
    Cell &c = o->sym[off + i];
    (void)m;
    if (!c.e) o->nsym++;
    c = Cell{e, i, 0};
  }
  // normalise bytes which are constants
  for (unsigned i = 0; n > 1 && i < n; i++) {
    if (((e->kz >> (i * 8)) & 0xff) == 0xff || e->op == O_CONCAT) {
      Expr *b = mkExtract(e, i * 8, 8);
      if (b->isConst()) { o->sym[off + i].e = nullptr; o->nsym--; o->data[off + i] = (uint8_t)b->val; }
    }
  }
}

// ---------------- reporting ----------------
static std::string locOf(const Instruction *I) {
  if (!I) return "?";
  if (const DILocation *d = I->getDebugLoc().get()) {
    std::string f = d->getFilename().str();
    size_t p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1);
    return f + ":" + std::to_string(d->getLine());
  }
  return "?";
}
static std::string demName(const std::string &n) {
  std::string d = demangle(n);
  return d;
}
static std::string hexOf(const std::vector<uint8_t> &b) {
  static const char *h = "0123456789abcdef"; std::string s;
  for (uint8_t x : b) { s += h[x >> 4]; s += h[x & 15]; }
  return s;
}
static const Model &modelOf(const PathCond &pc) { static Model empty; return pc.model ? *pc.model : empty; }
static std::vector<std::pair<std::string, std::string>> evalInputs(const State &s, const Model &m) {
  std::vector<std::pair<std::string, std::string>> r;
  for (auto &in : s.inputs) {
    std::vector<uint8_t> b;
    if (in.isConc) { for (int i = 0; i < 8; i++) b.push_back((uint8_t)(in.conc >> (8 * i))); }
    else for (Expr *e : in.bytes) b.push_back((uint8_t)evalExpr(e, m));
    r.push_back({in.name, hexOf(b)});
  }
  return r;
}
static bool isRepoFile(const Function *F) {
  if (auto *sp = F->getSubprogram()) {
    std::string f = sp->getFilename().str();
    if (f.compare(0, repoPrefix.size(), repoPrefix) == 0) return true;
    std::string d = sp->getDirectory().str();
    if (f.size() && f[0] != '/' && (d + "/" + f).compare(0, repoPrefix.size(), repoPrefix) == 0) return true;
  }
  return false;
}
static std::string repoLoc(const State &s) {
  // innermost frame location inside the repository (inlined locations considered)
  for (int i = (int)s.frames.size() - 1; i >= 0; i--) {
    const Instruction *I = s.frames[i].pc->I;
    if (!I) continue;
    for (const DILocation *d = I->getDebugLoc().get(); d; d = d->getInlinedAt()) {
      std::string f = d->getFilename().str();
      if (f.size() && f[0] != '/') f = d->getDirectory().str() + "/" + f;
      if (f.compare(0, repoPrefix.size(), repoPrefix) == 0) {
        size_t p = f.rfind('/');
        std::string fn;
        if (auto *sp = d->getScope()->getSubprogram()) fn = sp->getName().str();
        return f.substr(p + 1) + ":" + fn;
      }
    }
  }
  return "harness";
}
static void report(State &s, const std::string &kind, const std::string &label, std::shared_ptr<Model> m = nullptr) {
  Violation v;
  v.kind = kind; v.label = label; v.where = repoLoc(s);
  std::string key = kind + "|" + label + "|" + v.where;
  if (vioCount[key]++ >= (int)gMaxVioPerKey) return;
  for (int i = (int)s.frames.size() - 1; i >= 0 && v.stack.size() < 12; i--)
    v.stack.push_back(demName(s.frames[i].fn->name).substr(0, 120) + " @ " + locOf(s.frames[i].pc->I));
  v.inputs = evalInputs(s, m ? *m : modelOf(s.pc));
  violations.push_back(v);
  if (gTrace) fprintf(stderr, "VIOLATION %s %s %s\n", kind.c_str(), label.c_str(), v.where.c_str());
}
static void incomplete(const std::string &why) { incompleteReasons[why]++; }
static std::string stackStr(State &s) {
  std::string r;
  for (int i = (int)s.frames.size() - 1; i >= 0 && i > (int)s.frames.size() - 8; i--)
    r += " < " + demName(s.frames[i].fn->name).substr(0, 60) + "@" + locOf(s.frames[i].pc->I);
  return r;
}

// ---------------- decoding ----------------
static unsigned tyWidth(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  return 0;
}
static void slotsOf(Type *t, uint64_t off, std::vector<SlotDesc> &out) {
  if (auto *st = dyn_cast<StructType>(t)) {
    const StructLayout *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) slotsOf(st->getElementType(i), off + sl->getElementOffset(i), out);
  } else if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); i++) slotsOf(at->getElementType(), off + i * es, out);
  } else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t es = DL->getTypeStoreSize(vt->getElementType());
    for (uint64_t i = 0; i < vt->getNumElements(); i++) slotsOf(vt->getElementType(), off + i * es, out);
  } else {
    out.push_back({(uint32_t)off, (uint8_t)std::min(255u, tyWidth(t))});
  }
}
static unsigned numSlots(Type *t) { if (t->isVoidTy()) return 0; std::vector<SlotDesc> v; slotsOf(t, 0, v); return v.size(); }

static FnInfo *getFn(const Function *F) {
  auto it = fnInfo.find(F);
  return it == fnInfo.end() ? nullptr : it->second;
}

static bool constBytes(const Constant *C, std::vector<Val> &out);
static Val constScalar(const Constant *C) {
  if (auto *ci = dyn_cast<ConstantInt>(C)) {
    if (ci->getBitWidth() > 64) return CV(ci->getValue().trunc(64).getZExtValue());
    return CV(ci->getZExtValue());
  }
  if (isa<ConstantPointerNull>(C)) return CV(0);
  if (auto *gv = dyn_cast<GlobalAlias>(C)) return constScalar(gv->getAliasee());
  if (auto *gv = dyn_cast<GlobalValue>(C)) {
    auto it = gvAddr.find(gv);
    if (it == gvAddr.end()) { fprintf(stderr, "no addr for %s\n", gv->getName().str().c_str()); abort(); }
    return CV(it->second);
  }
  if (auto *cf = dyn_cast<ConstantFP>(C)) return CV(cf->getValueAPF().bitcastToAPInt().getZExtValue());
  if (isa<UndefValue>(C)) { unsigned w = tyWidth(C->getType()); return Val{0, freshUndef(w ? w : 64, "undef constant")}; }
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) abort();
        Val b = constScalar(ce->getOperand(0));
        return CV(b.v + off.getSExtValue());
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        return CV(constScalar(ce->getOperand(0)).v & maskw(tyWidth(ce->getType())));
      case Instruction::Trunc: return CV(constScalar(ce->getOperand(0)).v & maskw(tyWidth(ce->getType())));
      case Instruction::Add: return CV((constScalar(ce->getOperand(0)).v + constScalar(ce->getOperand(1)).v) & maskw(tyWidth(ce->getType())));
      case Instruction::Sub: return CV((constScalar(ce->getOperand(0)).v - constScalar(ce->getOperand(1)).v) & maskw(tyWidth(ce->getType())));
      case Instruction::ICmp: {
        uint64_t a = constScalar(ce->getOperand(0)).v, b = constScalar(ce->getOperand(1)).v;
        switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return CV(a == b); case CmpInst::ICMP_NE: return CV(a != b); default: break; }
        break;
      }
      default: break;
    }
  }
  fprintf(stderr, "unsupported constant: "); C->print(errs()); fprintf(stderr, "\n");
  abort();
}
static void constSlots(const Constant *C, std::vector<Val> &out) {
  Type *t = C->getType();
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) constSlots(C->getAggregateElement(i), out);
  } else out.push_back(constScalar(C));
}

struct Decoder {
  FnInfo *fi; const Function *F;
  std::unordered_map<const llvm::Value *, uint32_t> regOf;
  std::unordered_map<const llvm::Value *, int32_t> constOf;
  std::unordered_map<const BasicBlock *, uint32_t> bbIdx;
  int32_t op(const llvm::Value *v, unsigned slot = 0) {
    if (auto *c = dyn_cast<Constant>(v)) {
      auto it = constOf.find(c);
      int32_t base;
      if (it == constOf.end()) {
        base = (int32_t)fi->consts.size();
        constSlots(c, fi->consts);
        constOf[c] = base;
      } else base = it->second;
      return ~(base + (int32_t)slot);
    }
    if (isa<MetadataAsValue>(v)) return ~(int32_t)0x3fffffff;
    auto it = regOf.find(v);
    if (it == regOf.end()) { fprintf(stderr, "decode: no reg\n"); abort(); }
    return (int32_t)(it->second + slot);
  }
  Edge *edge(const BasicBlock *from, const BasicBlock *to) {
    Edge *e = new Edge(); e->target = bbIdx[to];
    for (const PHINode &p : to->phis()) {
      const llvm::Value *v = p.getIncomingValueForBlock(from);
      unsigned n = numSlots(p.getType());
      for (unsigned i = 0; i < n; i++) e->copies.push_back({regOf[&p] + i, op(v, i)});
    }
    return e;
  }
  int intrinsicOf(const Function *C, Inst &in) {
    StringRef n = C->getName();
    if (!n.starts_with("llvm.")) return -1;
    auto has = [&](const char *p) { return n.starts_with(p); };
    if (has("llvm.dbg") || has("llvm.lifetime.end") || has("llvm.experimental.noalias") || has("llvm.invariant") || has("llvm.va_end") || has("llvm.stackrestore") || has("llvm.prefetch") || has("llvm.donothing") || has("llvm.sideeffect")) return B_I_NOP;
    if (has("llvm.lifetime.start")) return B_I_LIFESTART;
    if (has("llvm.memcpy")) return B_MEMCPY;
    if (has("llvm.memmove")) return B_MEMMOVE;
    if (has("llvm.memset")) return B_MEMSET;
    if (has("llvm.uadd.with") || has("llvm.usub.with") || has("llvm.umul.with") || has("llvm.sadd.with") || has("llvm.ssub.with") || has("llvm.smul.with")) {
      in.sub = (n[5] == 's' ? 4 : 0) + (n.substr(6).starts_with("add") ? 0 : n.substr(6).starts_with("sub") ? 1 : 2); return B_I_OVF;
    }
    if (has("llvm.umin")) { in.sub = 0; return B_I_MINMAX; }
    if (has("llvm.umax")) { in.sub = 1; return B_I_MINMAX; }
    if (has("llvm.smin")) { in.sub = 2; return B_I_MINMAX; }
    if (has("llvm.smax")) { in.sub = 3; return B_I_MINMAX; }
    if (has("llvm.abs")) return B_I_ABS;
    if (has("llvm.fshl")) { in.sub = 0; return B_I_FSH; }
    if (has("llvm.fshr")) { in.sub = 1; return B_I_FSH; }
    if (has("llvm.ctlz")) return B_I_CTLZ;
    if (has("llvm.cttz")) return B_I_CTTZ;
    if (has("llvm.ctpop")) return B_I_CTPOP;
    if (has("llvm.bswap")) return B_I_BSWAP;
    if (has("llvm.expect")) return B_I_EXPECT;
    if (has("llvm.launder.invariant") || has("llvm.strip.invariant") || has("llvm.threadlocal.address") || has("llvm.ssa.copy")) return B_I_EXPECT;
    if (has("llvm.assume")) return B_I_NOP;
    if (has("llvm.usub.sat")) { in.sub = 0; return B_I_SAT; }
    if (has("llvm.uadd.sat")) { in.sub = 1; return B_I_SAT; }
    if (has("llvm.eh.typeid.for")) return B_I_TYPEID;
    if (has("llvm.stacksave")) return B_NOP0;
    if (has("llvm.va_start")) return B_I_VASTART;
    if (has("llvm.va_copy")) return B_I_VACOPY;
    if (has("llvm.trap") || has("llvm.ubsantrap")) return B_I_TRAP;
    if (has("llvm.objectsize")) return B_I_OBJSIZE;
    if (has("llvm.is.constant")) return B_I_ISCONST;
    if (has("llvm.fabs")) return B_I_FABS;
    return -2;
  }
  void run() {
    F = fi->F;
    uint32_t nr = 0;
    for (auto &a : F->args()) { regOf[&a] = nr; nr += numSlots(a.getType()); }
    fi->nargs = nr;
    uint32_t bi = 0;
    for (auto &bb : *F) {
      bbIdx[&bb] = bi++;
      for (auto &i : bb) if (!i.getType()->isVoidTy() && !i.getType()->isTokenTy()) { regOf[&i] = nr; nr += numSlots(i.getType()); }
    }
    uint32_t tmp = nr; nr += 64; (void)tmp;
    fi->nregs = nr;
    for (auto &bb : *F) {
      fi->blockStart.push_back(fi->code.size());
      for (auto &i : bb) { if (isa<PHINode>(i)) continue; decode(i); }
    }
    fi->decoded = true;
  }
  void emit(Inst &in) { fi->code.push_back(in); }
  void decode(const Instruction &i) {
    Inst in; memset(&in, 0, sizeof in); in.I = &i;
    Type *t = i.getType();
    in.dst = t->isVoidTy() ? 0 : regOf[&i];
    unsigned w = tyWidth(t); in.w = (uint8_t)std::min(w, 255u);
    auto unsup = [&]() { in.op = I_UNSUP; emit(in); };
    unsigned ns = t->isVoidTy() ? 0 : numSlots(t);
    bool vec = t->isVectorTy();
    switch (i.getOpcode()) {
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
      case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        Op o;
        switch (i.getOpcode()) {
          case Instruction::Add: o = O_ADD; break; case Instruction::Sub: o = O_SUB; break; case Instruction::Mul: o = O_MUL; break;
          case Instruction::UDiv: o = O_UDIV; break; case Instruction::SDiv: o = O_SDIV; break; case Instruction::URem: o = O_UREM; break;
          case Instruction::SRem: o = O_SREM; break; case Instruction::And: o = O_AND; break; case Instruction::Or: o = O_OR; break;
          case Instruction::Xor: o = O_XOR; break; case Instruction::Shl: o = O_SHL; break; case Instruction::LShr: o = O_LSHR; break;
          default: o = O_ASHR; break;
        }
        in.op = I_BIN; in.sub = o;
        unsigned ew = vec ? tyWidth(t->getScalarType()) : w;
        if (ew > 64 || !ew) return unsup();
        in.w = ew;
        for (unsigned k = 0; k < ns; k++) { Inst x = in; x.dst = in.dst + k; x.a = op(i.getOperand(0), k); x.b = op(i.getOperand(1), k); emit(x); }
        return;
      }
      case Instruction::ICmp: {
        Type *ot = i.getOperand(0)->getType();
        unsigned ow = tyWidth(ot->getScalarType());
        if (ow > 64 || !ow) return unsup();
        in.op = I_CMP; in.w = ow; in.sub = cast<ICmpInst>(i).getPredicate();
        for (unsigned k = 0; k < ns; k++) { Inst x = in; x.dst = in.dst + k; x.a = op(i.getOperand(0), k); x.b = op(i.getOperand(1), k); emit(x); }
        return;
      }
      case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
        unsigned sw = tyWidth(i.getOperand(0)->getType()->getScalarType()), dw = tyWidth(t->getScalarType());
        if (!sw || !dw || sw > 64 || dw > 64) return unsup();
        in.op = i.getOpcode() == Instruction::ZExt ? I_ZEXT : i.getOpcode() == Instruction::SExt ? I_SEXT : I_TRUNC;
        in.w = dw; in.sub = sw;
        for (unsigned k = 0; k < ns; k++) { Inst x = in; x.dst = in.dst + k; x.a = op(i.getOperand(0), k); emit(x); }
        return;
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
        unsigned sw = tyWidth(i.getOperand(0)->getType()), dw = w;
        if (!sw || !dw || sw > 64 || dw > 64) return unsup();
        in.a = op(i.getOperand(0)); in.sub = sw;
        in.op = sw == dw ? I_COPY : sw < dw ? I_ZEXT : I_TRUNC;
        return emit(in);
      }
      case Instruction::Freeze:
        for (unsigned k = 0; k < ns; k++) { Inst x = in; x.op = I_COPY; x.dst = in.dst + k; x.a = op(i.getOperand(0), k); emit(x); }
        return;
      case Instruction::Select: {
        std::vector<SlotDesc> sd; slotsOf(t, 0, sd);
        bool vc = i.getOperand(0)->getType()->isVectorTy();
        for (unsigned k = 0; k < ns; k++) { Inst x = in; x.op = I_SELECT; x.w = sd[k].w; x.sub = i.getType()->isPointerTy(); x.dst = in.dst + k; x.a = op(i.getOperand(0), vc ? k : 0); x.b = op(i.getOperand(1), k); x.c = op(i.getOperand(2), k); emit(x); }
        return;
      }
      case Instruction::Load: {
        std::vector<SlotDesc> sd; slotsOf(t, 0, sd);
        for (unsigned k = 0; k < ns; k++) {
          if (!sd[k].w || sd[k].w > 64) return unsup();
          Inst x = in; x.op = I_LOAD; x.w = sd[k].w; x.dst = in.dst + k; x.a = op(i.getOperand(0)); x.imm = sd[k].off; x.sub = (sd[k].w + 7) / 8; emit(x);
        }
        return;
      }
      case Instruction::Store: {
        std::vector<SlotDesc> sd; slotsOf(i.getOperand(0)->getType(), 0, sd);
        for (unsigned k = 0; k < sd.size(); k++) {
          if (!sd[k].w || sd[k].w > 64) return unsup();
          Inst x = in; x.op = I_STORE; x.w = sd[k].w; x.a = op(i.getOperand(1)); x.b = op(i.getOperand(0), k); x.imm = sd[k].off; x.sub = (sd[k].w + 7) / 8; emit(x);
        }
        return;
      }
      case Instruction::GetElementPtr: {
        auto &g = cast<GetElementPtrInst>(i);
        if (t->isVectorTy()) return unsup();
        in.op = I_GEP; in.a = op(g.getPointerOperand()); int64_t off = 0;
        auto *terms = new std::vector<GepTerm>();
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          const llvm::Value *idx = gi.getOperand();
          if (StructType *st = gi.getStructTypeOrNull()) {
            off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
          } else {
            int64_t es = (int64_t)DL->getTypeAllocSize(gi.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(idx)) off += es * ci->getSExtValue();
            else terms->push_back({op(idx), es, (uint8_t)tyWidth(idx->getType())});
          }
        }
        in.imm = (uint64_t)off; in.p = terms->empty() ? nullptr : terms;
        return emit(in);
      }
      case Instruction::Alloca: {
        auto &a = cast<AllocaInst>(i);
        in.op = I_ALLOCA; in.imm = DL->getTypeAllocSize(a.getAllocatedType());
        in.a = op(a.getArraySize());
        in.p = (void *)internStr("stack in " + demName(fi->name).substr(0, 60));
        return emit(in);
      }
      case Instruction::Br: {
        auto &b = cast<BranchInst>(i);
        if (b.isUnconditional()) { in.op = I_BR; in.p = edge(i.getParent(), b.getSuccessor(0)); }
        else {
          in.op = I_CBR; in.a = op(b.getCondition());
          Edge **e = new Edge *[2]; e[0] = edge(i.getParent(), b.getSuccessor(0)); e[1] = edge(i.getParent(), b.getSuccessor(1)); in.p = e;
        }
        return emit(in);
      }
      case Instruction::Switch: {
        auto &sw = cast<SwitchInst>(i);
        in.op = I_SWITCH; in.a = op(sw.getCondition()); in.w = tyWidth(sw.getCondition()->getType());
        struct SW { std::vector<std::pair<uint64_t, Edge *>> cases; Edge *def; };
        auto *s = new SW(); s->def = edge(i.getParent(), sw.getDefaultDest());
        for (auto &c : sw.cases()) s->cases.push_back({c.getCaseValue()->getZExtValue(), edge(i.getParent(), c.getCaseSuccessor())});
        in.p = s;
        return emit(in);
      }
      case Instruction::Ret: {
        in.op = I_RET;
        if (auto *rv = cast<ReturnInst>(i).getReturnValue()) {
          unsigned n = numSlots(rv->getType());
          auto *v = new std::vector<int32_t>();
          for (unsigned k = 0; k < n; k++) v->push_back(op(rv, k));
          in.p = v;
        }
        return emit(in);
      }
      case Instruction::Call: case Instruction::Invoke: {
        auto &cb = cast<CallBase>(i);
        auto *ci = new CallInfo(); memset((void *)&ci->callee, 0, sizeof(ci->callee));
        ci->builtin = -1; ci->retSlots = ns; ci->normal = ci->unwind = nullptr;
        ci->nfixed = 0;
        const llvm::Value *cv = cb.getCalledOperand()->stripPointerCasts();
        if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
        if (auto *cf = dyn_cast<Function>(cv)) {
          int ib = intrinsicOf(cf, in);
          if (ib == -2) { in.op = I_UNSUP; emit(in); return; }
          if (ib >= 0) ci->builtin = ib;
          else ci->callee = getFn(cf);
        } else if (cb.isInlineAsm()) {
          ci->builtin = B_I_NOP;
        } else ci->calleeOp = op(cb.getCalledOperand());
        if (ci->builtin == B_I_NOP) { // no args needed
          in.op = I_NOP; in.p = nullptr;
          if (cb.isInlineAsm() && ns) { in.op = I_UNSUP; }
          if (isa<InvokeInst>(i)) { in.op = I_BR; in.p = edge(i.getParent(), cast<InvokeInst>(i).getNormalDest()); }
          return emit(in);
        }
        unsigned ai = 0;
        for (auto &a : cb.args()) {
          if (ai == cb.getFunctionType()->getNumParams()) ci->nfixed = ci->args.size();
          if (a->getType()->isMetadataTy()) { ai++; continue; }
          unsigned n = numSlots(a->getType());
          std::vector<SlotDesc> sd; slotsOf(a->getType(), 0, sd);
          for (unsigned k = 0; k < n; k++) { ci->args.push_back(op(a.get(), k)); ci->argw.push_back(sd[k].w); }
          ai++;
        }
        if (ai <= cb.getFunctionType()->getNumParams()) ci->nfixed = ci->args.size();
        in.op = I_CALL; in.p = ci;
        if (auto *iv = dyn_cast<InvokeInst>(&i)) {
          in.op = I_INVOKE;
          ci->normal = edge(i.getParent(), iv->getNormalDest());
          ci->unwind = edge(i.getParent(), iv->getUnwindDest());
        }
        if (ci->builtin >= 0 && !ci->args.empty()) in.w = ci->argw[0];
        if (ci->builtin == B_I_OVF) { in.w = ci->argw[0]; }
        return emit(in);
      }
      case Instruction::Unreachable: in.op = I_UNREACH; return emit(in);
      case Instruction::LandingPad: {
        auto &lp = cast<LandingPadInst>(i);
        auto *li = new LandingInfo(); li->cleanup = lp.isCleanup();
        for (unsigned k = 0; k < lp.getNumClauses(); k++) {
          LandingClause lc; lc.all = false; lc.filter = lp.isFilter(k);
          Constant *c = lp.getClause(k);
          if (lc.filter) {
            if (auto *ca = dyn_cast<ConstantArray>(c)) for (auto &o : ca->operands()) lc.types.push_back(constScalar(cast<Constant>(o)).v);
          } else {
            if (isa<ConstantPointerNull>(c)) lc.all = true; else lc.types.push_back(constScalar(c).v);
          }
          li->clauses.push_back(lc);
        }
        in.op = I_LANDING; in.p = li;
        return emit(in);
      }
      case Instruction::Resume: in.op = I_RESUME; in.a = op(i.getOperand(0), 0); return emit(in);
      case Instruction::ExtractValue: {
        auto &ev = cast<ExtractValueInst>(i);
        unsigned s = slotIndex(ev.getAggregateOperand()->getType(), ev.getIndices());
        for (unsigned k = 0; k < ns; k++) { Inst x = in; x.op = I_COPY; x.dst = in.dst + k; x.a = op(ev.getAggregateOperand(), s + k); emit(x); }
        return;
      }
      case Instruction::InsertValue: {
        auto &iv = cast<InsertValueInst>(i);
        unsigned s = slotIndex(t, iv.getIndices());
        unsigned m = numSlots(iv.getInsertedValueOperand()->getType());
        for (unsigned k = 0; k < ns; k++) {
          Inst x = in; x.op = I_COPY; x.dst = in.dst + k;
          x.a = (k >= s && k < s + m) ? op(iv.getInsertedValueOperand(), k - s) : op(iv.getAggregateOperand(), k);
          emit(x);
        }
        return;
      }
      case Instruction::ExtractElement: {
        if (auto *ci = dyn_cast<ConstantInt>(i.getOperand(1))) { in.op = I_COPY; in.a = op(i.getOperand(0), ci->getZExtValue()); return emit(in); }
        return unsup();
      }
      case Instruction::InsertElement: {
        if (auto *ci = dyn_cast<ConstantInt>(i.getOperand(2))) {
          for (unsigned k = 0; k < ns; k++) { Inst x = in; x.op = I_COPY; x.dst = in.dst + k; x.a = k == ci->getZExtValue() ? op(i.getOperand(1)) : op(i.getOperand(0), k); emit(x); }
          return;
        }
        return unsup();
      }
      case Instruction::ShuffleVector: {
        auto &sv = cast<ShuffleVectorInst>(i);
        unsigned n0 = cast<FixedVectorType>(sv.getOperand(0)->getType())->getNumElements();
        for (unsigned k = 0; k < ns; k++) {
          int m = sv.getMaskValue(k); Inst x = in; x.op = I_COPY; x.dst = in.dst + k;
          if (m < 0) m = 0;
          x.a = (unsigned)m < n0 ? op(sv.getOperand(0), m) : op(sv.getOperand(1), m - n0); emit(x);
        }
        return;
      }
      case Instruction::Fence: in.op = I_NOP; return emit(in);
      case Instruction::AtomicRMW: {
        auto &r = cast<AtomicRMWInst>(i);
        in.op = I_RMW; in.a = op(r.getPointerOperand()); in.b = op(r.getValOperand()); in.sub = r.getOperation();
        if (!w || w > 64) return unsup();
        return emit(in);
      }
      case Instruction::AtomicCmpXchg: {
        auto &r = cast<AtomicCmpXchgInst>(i);
        in.op = I_CMPXCHG; in.a = op(r.getPointerOperand()); in.b = op(r.getCompareOperand()); in.c = op(r.getNewValOperand());
        in.w = tyWidth(r.getCompareOperand()->getType());
        return emit(in);
      }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
        if (vec || !w) return unsup();
        in.op = I_FBIN; in.sub = i.getOpcode() == Instruction::FAdd ? 0 : i.getOpcode() == Instruction::FSub ? 1 : i.getOpcode() == Instruction::FMul ? 2 : i.getOpcode() == Instruction::FDiv ? 3 : 4;
        in.a = op(i.getOperand(0)); in.b = op(i.getOperand(1)); return emit(in);
      case Instruction::FCmp:
        in.op = I_FCMP; in.sub = cast<FCmpInst>(i).getPredicate(); in.w = tyWidth(i.getOperand(0)->getType());
        if (!in.w) return unsup();
        in.a = op(i.getOperand(0)); in.b = op(i.getOperand(1)); return emit(in);
      case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc: {
        unsigned sw = tyWidth(i.getOperand(0)->getType());
        if (!w || !sw || vec) return unsup();
        in.op = I_FCAST; in.a = op(i.getOperand(0)); in.sub = sw;
        switch (i.getOpcode()) { case Instruction::UIToFP: in.flags = 0; break; case Instruction::SIToFP: in.flags = 1; break; case Instruction::FPToUI: in.flags = 2; break;
          case Instruction::FPToSI: in.flags = 3; break; default: in.flags = 4; break; }
        return emit(in);
      }
      default: return unsup();
    }
  }
  unsigned slotIndex(Type *t, ArrayRef<unsigned> idx) {
    unsigned s = 0;
    for (unsigned k : idx) {
      if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < k; j++) s += numSlots(st->getElementType(j)); t = st->getElementType(k); }
      else { t = t->getArrayElementType(); s += k * numSlots(t); }
    }
    return s;
  }
};
struct SW { std::vector<std::pair<uint64_t, Edge *>> cases; Edge *def; };

// ---------------- undef reasoning ----------------
static Expr *substUndef(Expr *e, std::unordered_map<uint32_t, Expr *> &memo) {
  if (!e->undef) return e;
  auto it = memo.find(e->id);
  if (it != memo.end()) return it->second;
  Expr *r;
  switch (e->op) {
    case O_VAR: r = mkVar("undef2", e->w, true); break;
    case O_CONCAT: r = mkConcat(substUndef(e->a, memo), substUndef(e->b, memo)); break;
    case O_EXTRACT: r = mkExtract(substUndef(e->a, memo), e->val, e->w); break;
    case O_SEXT: r = mkSext(substUndef(e->a, memo), e->w); break;
    case O_ITE: r = mkIte(substUndef(e->a, memo), substUndef(e->b, memo), substUndef(e->c, memo)); break;
    case O_LOOKUP: { std::vector<uint64_t> t(e->tab->v); Expr *l = substUndef(e->a, memo);
      if (l->isConst()) r = mkConst(t[l->val], e->w);
      else if (l->op == O_VAR || l->leaf == l) r = mkLookup(l, t, e->w);
      else { // leaf became structured: compose by tabulation over its own leaf
        std::vector<uint64_t> lt; tabulate(l, l->leaf, lt); for (auto &x : lt) x = t[x]; r = mkLookup(l->leaf, lt, e->w); }
      break; }
    case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: r = mkCmp(e->op, substUndef(e->a, memo), substUndef(e->b, memo)); break;
    default: r = mkBin(e->op, substUndef(e->a, memo), substUndef(e->b, memo)); break;
  }
  memo[e->id] = r;
  return r;
}
// does the value of e really depend on uninitialised data under pc?
static bool dependsOnUndef(State &s, Expr *e, std::shared_ptr<Model> *m) {
  if (!e->undef) return false;
  std::unordered_map<uint32_t, Expr *> memo;
  Expr *f = substUndef(e, memo);
  Expr *ne = mkNot1(mkCmp(O_EQ, e, f));
  return feasible(s.pc, ne, m) == Feas::Feasible;
}

// ---------------- execution helpers ----------------
enum Res { CONT, REEXEC, DEAD };   // CONT: go on; REEXEC: state changed, run same instruction again; DEAD: path over

static State *fork(State &s, Expr *cond, std::shared_ptr<Model> m) {
  State *n = new State(s);
  n->pc.model = m;
  addConstraint(n->pc, cond);
  n->depth++;
  nForks++;
  return n;
}
static void push(State *s) { work.push_back(s); }

// force a concrete value; forks the alternatives.  Returns DEAD/CONT
static Res concretize(State &s, Expr *e, uint64_t &out) {
  if (e->isConst()) { out = e->val; return CONT; }
  if (e->undef) {
    std::shared_ptr<Model> m;
    if (dependsOnUndef(s, e, &m)) { report(s, "uninit", "value depends on uninitialised memory", m); return DEAD; }
  }
  uint64_t v = evalExpr(e, modelOf(s.pc));
  Expr *eq = mkCmp(O_EQ, e, mkConst(v, e->w));
  Expr *ne = mkNot1(eq);
  std::shared_ptr<Model> m;
  Feas f = feasible(s.pc, ne, &m);
  if (f == Feas::Unknown) { incomplete("solver unknown (concretize)"); return DEAD; }
  if (f == Feas::Feasible) push(fork(s, ne, m));
  addConstraint(s.pc, eq);
  out = v;
  return CONT;
}

// a choice between nodes of a container, or between the links of one: one path for each, rather than terms over pointers to pointers
static bool nodeSelect(State &s, uint64_t x, uint64_t y) {
  MemObj *p = x >> 32 ? getObj(s, x >> 32) : nullptr, *q = y >> 32 ? getObj(s, y >> 32) : nullptr;
  if (!p || !q) return false;
  if (p != q) return (p->kind == K_NEW || q->kind == K_NEW) && !(x & 7) && !(y & 7);
  return p->kind == K_NEW && p->size <= 256 && !(x & 7) && (x - y == 8 || y - x == 8);
}
struct MemErr { const char *kind; std::string msg; };
// validate a concrete access; returns object or null with error
static MemObj *checkAddr(State &s, uint64_t addr, uint64_t n, bool write, uint32_t &id, uint32_t &off, const char *&kind, std::string &msg) {
  id = addr >> 32;
  int64_t o = (int64_t)(addr & 0xffffffffull) - (int64_t)kBase;
  char buf[200];
  if (id == 0) { kind = "null-deref"; snprintf(buf, sizeof buf, "access to address 0x%llx", (unsigned long long)addr); msg = buf; return nullptr; }
  MemObj *ob = getObj(s, id);
  if (!ob) { kind = "wild-pointer"; snprintf(buf, sizeof buf, "access to wild address 0x%llx", (unsigned long long)addr); msg = buf; return nullptr; }
  if (!ob->alive) { kind = "use-after-free"; msg = std::string("access to freed object: ") + ob->what; return nullptr; }
  if (ob->kind == K_EXTERN) { kind = "unmodelled"; msg = std::string("access to unmodelled external data ") + ob->what; return nullptr; }
  if (o < 0 || (uint64_t)o + n > ob->size) {
    kind = "out-of-bounds"; snprintf(buf, sizeof buf, "%s of %llu bytes at offset %lld of %u-byte object: ", write ? "write" : "read", (unsigned long long)n, (long long)o, ob->size);
    msg = std::string(buf) + ob->what; return nullptr;
  }
  if (write && ob->readonly) { kind = "write-to-const"; msg = std::string("write to constant ") + ob->what; return nullptr; }
  off = (uint32_t)o;
  return ob;
}
static Res memFail(State &s, const char *kind, const std::string &msg, std::shared_ptr<Model> m = nullptr) {
  if (!strcmp(kind, "unmodelled")) { incomplete(msg + stackStr(s)); return DEAD; }
  // strip numbers for the dedupe label
  report(s, kind, msg, m);
  return DEAD;
}

static bool constLeaves(Expr *e, std::set<uint64_t> &out, int budget) {
  if (budget <= 0 || out.size() > 128) return false;
  if (e->isConst()) { out.insert(e->val); return true; }
  if (e->op == O_ITE) return constLeaves(e->b, out, budget - 1) && constLeaves(e->c, out, budget - 1);
  if (e->op == O_ADD && e->b->isConst()) {
    std::set<uint64_t> t; if (!constLeaves(e->a, t, budget - 1)) return false;
    for (auto x : t) out.insert((x + e->b->val) & maskw(e->w)); return true;
  }
  if (e->op == O_LOOKUP) { for (auto x : e->tab->v) out.insert(x); return out.size() <= 128; }
  return false;
}

// candidate addresses for a symbolic pointer; each returned address is valid for n bytes.
// May fork or kill.  On CONT cands is non-empty and covers all feasible values.
static Res resolveSym(State &s, Expr *addr, uint64_t n, bool write, std::vector<uint64_t> &cands) {
  if (addr->undef) {
    std::shared_ptr<Model> m;
    if (dependsOnUndef(s, addr, &m)) { report(s, "uninit", "address depends on uninitialised memory", m); return DEAD; }
  }
  std::set<uint64_t> cs;
  bool have = false;
  if (addr->leaf) {
    std::vector<uint64_t> t; tabulate(addr, addr->leaf, t);
    for (auto x : t) cs.insert(x);
    have = true;
  } else if (constLeaves(addr, cs, 64)) have = true;
  if (have) {
    Expr *bad = mkConst(0, 1);
    std::vector<uint64_t> bads;
    for (auto x : cs) {
      uint32_t id, off; const char *k; std::string msg;
      if (checkAddr(s, x, n, write, id, off, k, msg)) cands.push_back(x);
      else bads.push_back(x);
    }
    if (!bads.empty()) {
      if (addr->leaf) {
        std::vector<uint64_t> t; tabulate(addr, addr->leaf, t);
        std::set<uint64_t> bs(bads.begin(), bads.end());
        for (auto &x : t) x = bs.count(x);
        bad = mkLookup(addr->leaf, t, 1);
      } else for (auto x : bads) bad = mkBin(O_OR, bad, mkCmp(O_EQ, addr, mkConst(x, 64)));
      std::shared_ptr<Model> m;
      Feas f = feasible(s.pc, bad, &m);
      if (f == Feas::Unknown) { incomplete("solver unknown (pointer)"); return DEAD; }
      if (f == Feas::Feasible) {
        uint64_t x = evalExpr(addr, *m);
        uint32_t id, off; const char *k = "?"; std::string msg;
        checkAddr(s, x, n, write, id, off, k, msg);
        if (!strcmp(k, "unmodelled")) { incomplete(msg); return DEAD; }
        report(s, k, msg, m);
        Expr *good = mkNot1(bad);
        std::shared_ptr<Model> m2;
        if (feasible(s.pc, good, &m2) != Feas::Feasible) return DEAD;
        s.pc.model = m2; addConstraint(s.pc, good);
      }
    }
    // several heap objects (nodes of a container): one path for each, rather than terms over pointers to pointers
    if (cands.size() > 1 && cands.size() <= 8 && !addr->leaf) {
      bool many = false, heap = false;
      for (auto x : cands) { if (x >> 32 != cands[0] >> 32) many = true; if (getObj(s, x >> 32)->kind == K_NEW) heap = true; }
      if (many && heap) { uint64_t v; Res r = concretize(s, addr, v); if (r != CONT) return r; cands.assign(1, v); }
    }
    return cands.empty() ? DEAD : CONT;
  }
  // general: object from the current model
  uint64_t a0 = evalExpr(addr, modelOf(s.pc));
  uint32_t id, off; const char *k = "?"; std::string msg;
  MemObj *o = checkAddr(s, a0, n, write, id, off, k, msg);
  if (!o) { return memFail(s, k, msg); }
  uint64_t base = ((uint64_t)id << 32) | kBase;
  Expr *rel = mkBin(O_SUB, addr, mkConst(base, 64));
  Expr *inb = mkCmp(O_ULT, rel, mkConst((uint64_t)o->size - n + 1, 64));
  if (!(inb->isConst() && inb->val)) {
    std::shared_ptr<Model> m;
    Expr *out = mkNot1(inb);
    Feas f = feasible(s.pc, out, &m);
    if (f == Feas::Unknown) { incomplete("solver unknown (bounds)"); return DEAD; }
    if (f == Feas::Feasible) {
      push(fork(s, out, m));
      addConstraint(s.pc, inb);
      rel = mkBin(O_SUB, addr, mkConst(base, 64));
    }
  }
  unsigned stride = 1;
  while (stride < 16 && (rel->kz & stride)) stride <<= 1;
  uint64_t maxv = std::min<uint64_t>(o->size - n, ~rel->kz);
  if (maxv / stride > 600) {
    uint64_t v; Res r = concretize(s, addr, v);
    if (r != CONT) return r;
    cands.push_back(v); return CONT;
  }
  for (uint64_t x = 0; x <= maxv; x += stride) if (!(x & rel->kz)) cands.push_back(base + x);
  return CONT;
}

static Res loadVal(State &s, Val addr, unsigned n, unsigned w, Val &out) {
  if (!addr.e) {
    uint32_t id = addr.v >> 32; int64_t o = (int64_t)(addr.v & 0xffffffffull) - (int64_t)kBase;
    MemObj *ob = id ? getObj(s, id) : nullptr;
    if (ob && ob->alive && o >= 0 && (uint64_t)o + n <= ob->size && ob->kind != K_EXTERN) {
      out = loadObj(s, id, (uint32_t)o, n, w);
      return CONT;
    }
    uint32_t off; const char *k = "?"; std::string msg;
    checkAddr(s, addr.v, n, false, id, off, k, msg);
    return memFail(s, k, msg);
  }
  std::vector<uint64_t> c;
  Res r = resolveSym(s, addr.e, n, false, c);
  if (r != CONT) return r;
  // all-concrete contents with a narrow leaf: one table
  std::vector<Val> vals(c.size());
  bool allc = true;
  for (size_t i = 0; i < c.size(); i++) { vals[i] = loadObj(s, c[i] >> 32, (uint32_t)((c[i] & 0xffffffff) - kBase), n, w); if (vals[i].e) allc = false; }
  if (c.size() == 1) { out = vals[0]; return CONT; }
  if (allc && addr.e->leaf) {
    std::vector<uint64_t> t; tabulate(addr.e, addr.e->leaf, t);
    std::unordered_map<uint64_t, uint64_t> mp;
    for (size_t i = 0; i < c.size(); i++) mp[c[i]] = vals[i].v;
    // unreachable entries: repeat a reachable neighbour (don't care)
    std::vector<uint64_t> tv(t.size()); bool any = false; uint64_t lastv = vals[0].v;
    for (size_t i = 0; i < t.size(); i++) { auto it = mp.find(t[i]); if (it != mp.end()) { tv[i] = it->second; lastv = tv[i]; any = true; } else tv[i] = lastv; }
    (void)any;
    out = norm(mkLookup(addr.e->leaf, tv, w));
    return CONT;
  }
  Expr *res = E(vals.back(), w);
  for (int i = (int)c.size() - 2; i >= 0; i--) res = mkIte(mkCmp(O_EQ, addr.e, mkConst(c[i], 64)), E(vals[i], w), res);
  out = norm(res);
  return CONT;
}
static Res storeVal(State &s, Val addr, unsigned n, unsigned w, Val v) {
  if (!addr.e) {
    uint32_t id, off; const char *k = "?"; std::string msg;
    MemObj *ob = checkAddr(s, addr.v, n, true, id, off, k, msg);
    if (!ob) return memFail(s, k, msg);
    storeObj(s, id, off, n, w, v);
    return CONT;
  }
  std::vector<uint64_t> c;
  Res r = resolveSym(s, addr.e, n, true, c);
  if (r != CONT) return r;
  if (c.size() == 1) { storeObj(s, c[0] >> 32, (uint32_t)((c[0] & 0xffffffff) - kBase), n, w, v); return CONT; }
  for (uint64_t a : c) {
    uint32_t id = a >> 32, off = (uint32_t)((a & 0xffffffff) - kBase);
    Val old = loadObj(s, id, off, n, w);
    Expr *nv = mkIte(mkCmp(O_EQ, addr.e, mkConst(a, 64)), E(v, w), E(old, w));
    storeObj(s, id, off, n, w, norm(nv));
  }
  return CONT;
}
// concrete-address byte range access for builtins
static Res concPtr(State &s, Val p, uint64_t &out) {
  if (!p.e) { out = p.v; return CONT; }
  return concretize(s, p.e, out);
}
static Res rangeCheck(State &s, uint64_t addr, uint64_t n, bool write, uint32_t &id, uint32_t &off) {
  if (n == 0) { id = 0; off = 0; return CONT; }
  const char *k = "?"; std::string msg;
  if (!checkAddr(s, addr, n, write, id, off, k, msg)) return memFail(s, k, msg);
  return CONT;
}
static void copyBytes(State &s, uint32_t did, uint32_t doff, uint32_t sid, uint32_t soff, uint32_t n) {
  MemObj *d = getObjW(s, did);
  MemObj *o = getObj(s, sid);
  if (!o->nsym && !o->nundef && !d->nsym && !d->nundef) { memmove(d->data + doff, o->data + soff, n); return; }
  std::vector<uint8_t> tmp(n); std::vector<Cell> cs; std::vector<bool> ud;
  memcpy(tmp.data(), o->data + soff, n);
  bool hs = o->nsym, hu = o->nundef;
  if (hs) { cs.resize(n); memcpy(cs.data(), o->sym + soff, sizeof(Cell) * n); }
  if (hu) { ud.resize(n); for (uint32_t i = 0; i < n; i++) ud[i] = undefBit(o, soff + i); }
  memcpy(d->data + doff, tmp.data(), n);
  bool anys = false;
  if (hs) for (auto &c : cs) if (c.e) { anys = true; break; }
  if (anys && !d->sym) d->sym = (Cell *)calloc(d->size + 1, sizeof(Cell));
  if (d->sym) for (uint32_t i = 0; i < n; i++) {
    Cell c = hs ? cs[i] : Cell{nullptr, 0, 0};
    Cell &t = d->sym[doff + i];
    if (t.e && !c.e) d->nsym--; else if (!t.e && c.e) d->nsym++;
    t = c;
  }
  if (d->undef) clearUndef(d, doff, n);
  if (hu) for (uint32_t i = 0; i < n; i++) if (ud[i]) {
    if (!d->undef) { size_t nw = (d->size + 63) / 64; d->undef = (uint64_t *)calloc(nw + 1, 8); }
    d->undef[(doff + i) >> 6] |= 1ull << ((doff + i) & 63); d->nundef++;
    if (d->sym && d->sym[doff + i].e) { d->sym[doff + i].e = nullptr; d->nsym--; }
  }
}
static Res readCStr(State &s, uint64_t addr, std::string &out) {
  out.clear();
  for (;;) {
    uint32_t id, off; const char *k = "?"; std::string msg;
    if (!checkAddr(s, addr, 1, false, id, off, k, msg)) return memFail(s, k, msg);
    Val v = loadObjByte(s, id, off);
    if (v.e) { out += '?'; } else { if (!v.v) return CONT; out += (char)v.v; }
    addr++;
    if (out.size() > 4096) return CONT;
  }
}

// ---------------- exceptions ----------------
static bool typeMatches(State &s, uint64_t thrown, uint64_t caught, int depth = 0) {
  if (thrown == caught) return true;
  if (depth > 16) return false;
  uint32_t id = thrown >> 32; MemObj *o = getObj(s, id);
  if (!o || o->size < 16 || o->kind == K_EXTERN) return false;
  uint64_t vp; memcpy(&vp, o->data, 8);
  if (vp == zti_si + 16) { uint64_t b; memcpy(&b, o->data + 16, 8); return typeMatches(s, b, caught, depth + 1); }
  if (vp == zti_vmi + 16) {
    uint32_t cnt; memcpy(&cnt, o->data + 20, 4);
    for (uint32_t i = 0; i < cnt; i++) { uint64_t b; memcpy(&b, o->data + 24 + 16 * i, 8); if (typeMatches(s, b, caught, depth + 1)) return true; }
  }
  return false;
}
static std::unordered_map<uint64_t, int> typeIds;
static int typeIdOf(uint64_t t) { auto it = typeIds.find(t); if (it != typeIds.end()) return it->second; int n = (int)typeIds.size() + 1; typeIds[t] = n; return n; }

static void popFrame(State &s) {
  Frame &f = s.frames.back();
  for (uint32_t id : f.allocas) killObj(s, id);
  s.regs.resize(f.base);
  s.frames.pop_back();
}
static inline void takeEdge(State &s, Edge *e) {
  Frame &f = s.frames.back();
  Val *R = s.regs.data() + f.base;
  size_t n = e->copies.size();
  auto rd = [&](int32_t i) -> Val { return i >= 0 ? R[i] : f.fn->consts[~i]; };
  if (n == 1) R[e->copies[0].first] = rd(e->copies[0].second);
  else if (n) {
    Val tmpb[16]; std::vector<Val> tv; Val *tmp = tmpb;
    if (n > 16) { tv.resize(n); tmp = tv.data(); }
    for (size_t i = 0; i < n; i++) tmp[i] = rd(e->copies[i].second);
    for (size_t i = 0; i < n; i++) R[e->copies[i].first] = tmp[i];
  }
  f.pc = f.fn->code.data() + f.fn->blockStart[e->target];
}
static std::string typeNameOf(State &s, uint64_t ti) {
  for (auto &p : gvAddr) if (p.second == ti) return demName(p.first->getName().str());
  return "?";
}
static int landingSel(State &s, LandingInfo *li, uint64_t tinfo, bool &handler, bool &enter) {
  handler = enter = false;
  for (auto &c : li->clauses) {
    if (!c.filter) {
      if (c.all) { handler = enter = true; return typeIdOf(0); }
      if (typeMatches(s, tinfo, c.types[0])) { handler = enter = true; return typeIdOf(c.types[0]); }
    } else {
      bool allowed = false;
      for (auto t : c.types) if (typeMatches(s, tinfo, t)) allowed = true;
      if (!allowed) { handler = enter = true; return -1; }
    }
  }
  if (li->cleanup) enter = true;
  return 0;
}
static LandingInfo *landingOf(FnInfo *fn, Edge *unwind) {
  Inst *p = fn->code.data() + fn->blockStart[unwind->target];
  if (p->op != I_LANDING) { fprintf(stderr, "unwind dest without landingpad\n"); abort(); }
  return (LandingInfo *)p->p;
}
// unwind starting at the call instruction of the top frame
static Res unwindFrom(State &s, ExcRec exc, bool search) {
  if (search) {
    bool found = false;
    for (int i = (int)s.frames.size() - 1; i >= 0 && !found; i--) {
      Frame &f = s.frames[i];
      if (f.pc->op == I_INVOKE) {
        CallInfo *ci = (CallInfo *)f.pc->p; bool h, en;
        landingSel(s, landingOf(f.fn, ci->unwind), exc.tinfo, h, en);
        if (h) found = true;
      }
      if (f.dtorCall) break;
    }
    if (!found) { report(s, "uncaught-exception", "exception escapes: " + typeNameOf(s, exc.tinfo)); return DEAD; }
  }
  while (!s.frames.empty()) {
    Frame &f = s.frames.back();
    if (f.pc->op == I_INVOKE) {
      CallInfo *ci = (CallInfo *)f.pc->p; bool h, en;
      int sel = landingSel(s, landingOf(f.fn, ci->unwind), exc.tinfo, h, en);
      if (en) {
        takeEdge(s, ci->unwind);
        Inst *lp = s.frames.back().pc;
        Val *R = s.regs.data() + s.frames.back().base;
        R[lp->dst] = CV(exc.obj); R[lp->dst + 1] = CV((uint32_t)sel);
        s.frames.back().pc++;
        return CONT;
      }
    }
    popFrame(s);
  }
  report(s, "uncaught-exception", "exception escapes");
  return DEAD;
}
static ExcRec *findExc(State &s, uint64_t obj) { for (auto &e : s.excs) if (e.obj == obj) return &e; return nullptr; }

// ---------------- calls ----------------
static void ensureDecoded(FnInfo *fi) { if (!fi->decoded) { Decoder d; d.fi = fi; d.run(); } }

static Res pushCall(State &s, FnInfo *fi, const Val *args, size_t nargs, size_t nfixed) {
  ensureDecoded(fi);
  fi->executed = true;
  if (s.frames.size() > 1500) { report(s, "stack-overflow", "recursion deeper than 1500 frames"); return DEAD; }
  Frame f; f.fn = fi; f.base = s.regs.size(); f.dtorCall = false;
  std::vector<Val> a(args, args + nargs);
  s.regs.resize(f.base + fi->nregs, CV(0));
  size_t n = std::min<size_t>(fi->nargs, nargs);
  for (size_t i = 0; i < n; i++) s.regs[f.base + i] = a[i];
  if (fi->vararg) for (size_t i = nfixed; i < nargs; i++) f.varargs.push_back(a[i]);
  f.pc = fi->code.data();
  s.frames.push_back(std::move(f));
  return CONT;
}

static Expr *freshVar(State &s, const std::string &cls, unsigned w) {
  static std::unordered_map<std::string, std::vector<Expr *>> pool;
  int k = s.freshCount[cls]++;
  std::string key = cls + "/" + std::to_string(w);
  auto &v = pool[key];
  while ((int)v.size() <= k) v.push_back(mkVar(key, w, false, -1, v.size()));
  return v[k];
}
static Expr *inputVar(const std::string &name, uint32_t idx) {
  static std::unordered_map<std::string, std::vector<Expr *>> pool;
  auto &v = pool[name];
  while (v.size() <= idx) v.push_back(mkVar(name, 8, false, 1, v.size()));
  return v[idx];
}
static Expr *bytesEq(const std::vector<Val> &a, const std::vector<Val> &b) {
  Expr *r = mkConst(1, 1);
  for (size_t i = 0; i < a.size(); i++) {
    Expr *q = mkCmp(O_EQ, E(a[i], 8), E(b[i], 8));
    if (q->isConst() && !q->val) return q;
    r = mkBin(O_AND, r, q);
  }
  return r;
}
static bool bytesSame(const std::vector<Val> &a, const std::vector<Val> &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) { if (a[i].e != b[i].e) return false; if (!a[i].e && a[i].v != b[i].v) return false; }
  return true;
}
static bool allConc(const std::vector<Val> &a) { for (auto &v : a) if (v.e) return false; return true; }
static void sha256(const uint8_t *p, size_t n, uint8_t *out) { SHA256(p, n, out); }

static Res idealHash(State &s, const std::vector<Val> &in, std::vector<Val> &out) {
  for (auto &h : s.hashes) if (bytesSame(h.in, in)) { out = h.out; return CONT; }
  HashRec rec; rec.in = in;
  std::vector<uint8_t> ev(in.size()); evalNewEpoch();
  for (size_t i = 0; i < in.size(); i++) ev[i] = in[i].e ? (uint8_t)evalExprNE(in[i].e, modelOf(s.pc)) : (uint8_t)in[i].v;
  uint8_t dg[32]; sha256(ev.data(), ev.size(), dg);
  if (allConc(in)) { for (int i = 0; i < 32; i++) rec.out.push_back(CV(dg[i])); }
  else {
    for (int i = 0; i < 32; i++) { Expr *v = freshVar(s, "sha", 8); s.pc.setModel(v->val, dg[i]); rec.out.push_back(Val{0, v}); }
  }
  bool conc = allConc(in);
  for (auto &h : s.hashes) {
    if (conc && allConc(h.in)) continue;
    Expr *oe = bytesEq(h.out, rec.out);
    Expr *c;
    Expr *any = oe;                      // crypto mode bit 2: hashes of different data do not even agree in one of their four 8-byte words
    if (s.cryptoMode & 4) for (int w = 0; w < 4; w++) any = mkBin(O_OR, any, bytesEq(std::vector<Val>(h.out.begin() + 8 * w, h.out.begin() + 8 * w + 8), std::vector<Val>(rec.out.begin() + 8 * w, rec.out.begin() + 8 * w + 8)));
    if (h.in.size() != in.size()) c = mkNot1(any);
    else { Expr *ie = bytesEq(h.in, in); c = mkCmp(O_EQ, ie, oe); if (s.cryptoMode & 4) c = mkBin(O_AND, c, mkBin(O_OR, ie, mkNot1(any))); }
    if (c->isConst()) continue;
    // the model keeps real SHA-256 outputs for fresh variables unless the solver changed an input since
    if (!evalExpr(c, modelOf(s.pc))) {
      std::shared_ptr<Model> m; Feas f = feasible(s.pc, c, &m);
      if (f == Feas::Infeasible) return DEAD;
      if (f == Feas::Unknown) { incomplete("solver unknown (hash)"); return DEAD; }
      s.pc.model = m;
    }
    addConstraint(s.pc, c);
  }
  s.hashes.push_back(rec);
  out = rec.out;
  return CONT;
}
static void realAes(bool dec, const uint8_t *key, const uint8_t *in, uint8_t *out) {
  AES_KEY k;
  if (dec) { AES_set_decrypt_key(key, 256, &k); AES_decrypt(in, out, &k); }
  else { AES_set_encrypt_key(key, 256, &k); AES_encrypt(in, out, &k); }
}
static Res idealPerm(State &s, bool dec, const std::vector<Val> &key, const std::vector<Val> &in, std::vector<Val> &out) {
  bool conc = allConc(key) && allConc(in);
  static std::unordered_map<std::string, std::shared_ptr<const PermRec>> known;      // fully concrete applications, shared between paths
  std::string id; std::shared_ptr<const PermRec> have;
  if (conc) {
    id += dec ? 'd' : 'e'; for (auto &v : key) id += (char)v.v; for (auto &v : in) id += (char)v.v;
    auto it = known.find(id);
    if (it != known.end()) { have = it->second; for (auto &p : s.perms) if (p == have) { out = dec ? p->pt : p->ct; return CONT; } }
  } else for (auto &p : s.perms) if (!p->conc && bytesSame(dec ? p->ct : p->pt, in) && bytesSame(p->key, key)) { out = dec ? p->pt : p->ct; return CONT; }
  uint8_t k[32], x[16], y[16]; const int mode = s.cryptoMode & 3;
  evalNewEpoch();
  const Model &m0 = modelOf(s.pc);
  for (int i = 0; i < 32; i++) k[i] = key[i].e ? evalExprNE(key[i].e, m0) : key[i].v;
  for (int i = 0; i < 16; i++) x[i] = in[i].e ? evalExprNE(in[i].e, m0) : in[i].v;
  realAes(dec, k, x, y);
  PermRec rec; rec.key = key; rec.conc = conc; std::vector<Val> o;
  for (int i = 0; i < 16; i++) {
    if (conc) o.push_back(CV(y[i]));
    else { Expr *v = freshVar(s, "aes", 8); s.pc.setModel(v->val, y[i]); o.push_back(Val{0, v}); }
  }
  rec.pt = dec ? o : in; rec.ct = dec ? in : o;
  // mode 1: one permutation per key.  mode 2: the same for known keys, and applying the cipher to one block under two
  // different keys does not give the same block by accident (it would with probability 2^-128)
  int ofKey = -1;      // the first blocks suffice
  if (mode) for (auto &pp : s.perms) {
    const PermRec &p = *pp; if (conc && p.conc) continue;
    if (ofKey < 0) { ofKey = 0; if (mode == 2) for (auto &q : s.perms) ofKey += bytesSame(q->key, key); }
    bool sameIn = mode == 2 && ofKey < 3 && bytesSame(dec ? p.ct : p.pt, in) && !bytesSame(p.key, key);
    if (mode == 2 && !sameIn && !(allConc(p.key) && allConc(key))) continue;
    Expr *ke = bytesEq(p.key, key);
    if (ke->isConst() && !ke->val && !sameIn) continue;
    Expr *pe = bytesEq(p.pt, rec.pt), *ce = bytesEq(p.ct, rec.ct);
    Expr *c = mkBin(O_OR, mkNot1(ke), mkCmp(O_EQ, pe, ce));
    if (sameIn) c = mkBin(O_AND, c, mkBin(O_OR, ke, mkNot1(dec ? pe : ce)));
    if (c->isConst()) continue;
    if (!evalExpr(c, modelOf(s.pc))) {
      std::shared_ptr<Model> m; Feas f = feasible(s.pc, c, &m);
      if (f == Feas::Infeasible) return DEAD;
      if (f == Feas::Unknown) { incomplete("solver unknown (perm)"); return DEAD; }
      s.pc.model = m;
    }
    addConstraint(s.pc, c);
  }
  auto sp = have ? have : std::make_shared<const PermRec>(rec); s.perms.push_back(sp);
  if (conc && !have) { known[id] = sp; std::string i2(1, dec ? 'e' : 'd'); for (auto &v : key) i2 += (char)v.v; for (auto &v : o) i2 += (char)v.v; known[i2] = sp; }
  out = o;
  return CONT;
}
static Res readBytes(State &s, uint64_t addr, uint64_t n, std::vector<Val> &out) {
  uint32_t id, off;
  Res r = rangeCheck(s, addr, n, false, id, off);
  if (r != CONT) return r;
  for (uint64_t i = 0; i < n; i++) out.push_back(loadObjByte(s, id, off + i));
  return CONT;
}
static Res writeBytes(State &s, uint64_t addr, const std::vector<Val> &in) {
  uint32_t id, off;
  Res r = rangeCheck(s, addr, in.size(), true, id, off);
  if (r != CONT) return r;
  for (size_t i = 0; i < in.size(); i++) storeObjByte(s, id, off + i, in[i]);
  return CONT;
}

static void endPath(State &s) {
  nPathsDone++;
  // reservoir of samples
  sampleSeen++;
  auto mk = [&]() {
    SampleRec r; r.inputs = evalInputs(s, modelOf(s.pc));
    for (auto &o : s.obs) { std::vector<uint8_t> b; for (auto &v : o.bytes) b.push_back(v.e ? (uint8_t)evalExpr(v.e, modelOf(s.pc)) : (uint8_t)v.v); r.obs.push_back({o.tag, hexOf(b)}); }
    return r;
  };
  if ((int)samples.size() < gSamples) samples.push_back(mk());
  else if (gSamples) {
    static uint64_t rng = 88172645463325252ull ^ (gSeed * 0x9E3779B97F4A7C15ull);
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    uint64_t j = rng % sampleSeen;
    if ((int)j < gSamples) samples[j] = mk();
  }
}

static Res doAssume(State &s, Expr *c) {
  if (c->isConst()) { if (c->val) return CONT; nPathsAssume++; return DEAD; }
  if (!evalExpr(c, modelOf(s.pc))) {
    std::shared_ptr<Model> m; Feas f = feasible(s.pc, c, &m);
    if (f == Feas::Infeasible) { nPathsAssume++; return DEAD; }
    if (f == Feas::Unknown) { incomplete("solver unknown (assume)"); return DEAD; }
    s.pc.model = m;
  }
  addConstraint(s.pc, c);
  return CONT;
}

static Res builtin(State &s, int b, Inst *in, CallInfo *ci, Val *ret, bool &pushed);

// division by a constant of a wide symbolic value: introduce quotient/remainder
// ---------------- main loop ----------------
static Res branchSym(State &s, Expr *c, bool &taken) {
  if (c->undef) {
    std::shared_ptr<Model> m;
    if (dependsOnUndef(s, c, &m)) { report(s, "uninit", "branch depends on uninitialised memory", m); return DEAD; }
  }
  bool cur = evalExpr(c, modelOf(s.pc));
  Expr *t = cur ? c : mkNot1(c), *o = cur ? mkNot1(c) : c;
  std::shared_ptr<Model> m;
  Feas f = feasible(s.pc, o, &m);
  if (f == Feas::Unknown) { incomplete("solver unknown (branch)"); return DEAD; }
  if (f == Feas::Feasible) {
    State *n = fork(s, o, m);
    push(n);                      // re-executes this branch; condition now decided
    addConstraint(s.pc, t);
  }
  taken = cur;
  return CONT;
}

static double fv(uint64_t v, unsigned w) { if (w == 32) { float f; uint32_t x = v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static uint64_t tofv(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t v; memcpy(&v, &d, 8); return v; }

static void runState(State *sp) {
  State &s = *sp;
  Val *R; FnInfo *fn; Val *C;
  uint64_t cnt = 0;
#define RELOAD() do { R = s.regs.data() + s.frames.back().base; fn = s.frames.back().fn; C = fn->consts.data(); } while (0)
#define OPV(i) ((i) >= 0 ? R[i] : C[~(i)])
  RELOAD();
  for (;;) {
    Frame &f = s.frames.back();
    Inst *in = f.pc;
    if ((++cnt & 0xfffff) == 0) {
      if (nowSec() > gDeadline) { incomplete("time limit"); gStop = true; delete sp; return; }
      if (nInstr > gMaxInstr) { incomplete("instruction limit"); gStop = true; delete sp; return; }
      struct rusage ru; getrusage(RUSAGE_SELF, &ru);
      if ((uint64_t)ru.ru_maxrss / 1024 > gMemLimitMB) { incomplete("memory limit"); gStop = true; delete sp; return; }
    }
    nInstr++; s.steps++;
    if (s.stepBudget && s.steps - s.stepMark > s.stepBudget) {
      report(s, "excessive-work", s.stepLabel); delete sp; return;
    }
    if (s.steps > gMaxStepsPath) { incomplete("path step limit" + stackStr(s)); delete sp; return; }
    switch (in->op) {
      case I_BIN: {
        const Val &a = OPV(in->a), &b = OPV(in->b);
        unsigned w = in->w;
        if (!a.e && !b.e) {
          uint64_t x = a.v, y = b.v, m = maskw(w), r;
          switch (in->sub) {
            case O_ADD: r = (x + y) & m; break; case O_SUB: r = (x - y) & m; break; case O_MUL: r = (x * y) & m; break;
            case O_AND: r = x & y; break; case O_OR: r = x | y; break; case O_XOR: r = x ^ y; break;
            case O_SHL: r = y >= w ? 0 : (x << y) & m; break; case O_LSHR: r = y >= w ? 0 : x >> y; break;
            case O_UDIV: case O_UREM: case O_SDIV: case O_SREM:
              if (!y) { report(s, "div-by-zero", "division by zero"); delete sp; return; }
              r = evalOp((Op)in->sub, x, y, w); break;
            default: r = evalOp((Op)in->sub, x, y, w); break;
          }
          R[in->dst] = CV(r);
        } else {
          Expr *x = E(a, w), *y = E(b, w);
          Op o = (Op)in->sub;
          if (o == O_UDIV || o == O_UREM || o == O_SDIV || o == O_SREM) {
            Expr *z = mkCmp(O_EQ, y, mkConst(0, w));
            std::shared_ptr<Model> m;
            if (!(z->isConst() && !z->val)) {
              Feas ff = feasible(s.pc, z, &m);
              if (ff == Feas::Feasible) { report(s, "div-by-zero", "division by zero", m); if (doAssume(s, mkNot1(z)) != CONT) { delete sp; return; } }
            }
          }
          R[in->dst] = norm(mkBin(o, x, y));
        }
        break;
      }
      case I_CMP: {
        const Val &a = OPV(in->a), &b = OPV(in->b);
        unsigned w = in->w;
        if (!a.e && !b.e) {
          uint64_t x = a.v, y = b.v; bool r;
          switch (in->sub) {
            case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
            case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
            case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
            case CmpInst::ICMP_SLT: r = sx(x, w) < sx(y, w); break; case CmpInst::ICMP_SLE: r = sx(x, w) <= sx(y, w); break;
            case CmpInst::ICMP_SGT: r = sx(x, w) > sx(y, w); break; default: r = sx(x, w) >= sx(y, w); break;
          }
          R[in->dst] = CV(r);
        } else {
          Expr *x = E(a, w), *y = E(b, w), *r;
          switch (in->sub) {
            case CmpInst::ICMP_EQ: r = mkCmp(O_EQ, x, y); break; case CmpInst::ICMP_NE: r = mkNot1(mkCmp(O_EQ, x, y)); break;
            case CmpInst::ICMP_ULT: r = mkCmp(O_ULT, x, y); break; case CmpInst::ICMP_ULE: r = mkCmp(O_ULE, x, y); break;
            case CmpInst::ICMP_UGT: r = mkCmp(O_ULT, y, x); break; case CmpInst::ICMP_UGE: r = mkCmp(O_ULE, y, x); break;
            case CmpInst::ICMP_SLT: r = mkCmp(O_SLT, x, y); break; case CmpInst::ICMP_SLE: r = mkCmp(O_SLE, x, y); break;
            case CmpInst::ICMP_SGT: r = mkCmp(O_SLT, y, x); break; default: r = mkCmp(O_SLE, y, x); break;
          }
          R[in->dst] = norm(r);
        }
        break;
      }
      case I_ZEXT: { const Val &a = OPV(in->a); R[in->dst] = a.e ? norm(mkZext(a.e, in->w)) : a; break; }
      case I_SEXT: { const Val &a = OPV(in->a); R[in->dst] = a.e ? norm(mkSext(a.e, in->w)) : CV((uint64_t)sx(a.v, in->sub) & maskw(in->w)); break; }
      case I_TRUNC: { const Val &a = OPV(in->a); R[in->dst] = a.e ? norm(mkExtract(a.e, 0, in->w)) : CV(a.v & maskw(in->w)); break; }
      case I_COPY: R[in->dst] = OPV(in->a); break;
      case I_SELECT: {
        const Val &c = OPV(in->a);
        if (!c.e) R[in->dst] = c.v ? OPV(in->b) : OPV(in->c);
        else {
          const Val &x = OPV(in->b), &y = OPV(in->c);
          if (in->sub && !x.e && !y.e && x.v != y.v && nodeSelect(s, x.v, y.v)) {
            uint64_t v; if (concretize(s, c.e, v) != CONT) { delete sp; return; }
            RELOAD(); R[in->dst] = v ? OPV(in->b) : OPV(in->c); break;
          }
          R[in->dst] = norm(mkIte(c.e, E(x, in->w), E(y, in->w)));
        }
        break;
      }
      case I_LOAD: {
        Val a = OPV(in->a);
        if (in->imm) a = a.e ? norm(mkBin(O_ADD, a.e, mkConst(in->imm, 64))) : CV(a.v + in->imm);
        Val out;
        if (!a.e) {
          uint32_t id = a.v >> 32; uint64_t o = (a.v & 0xffffffffull) - kBase;
          MemObj *ob = id ? getObj(s, id) : nullptr;
          if (ob && ob->alive && o + in->sub <= ob->size && o < 0x80000000ull && !ob->nsym && !ob->nundef && ob->kind != K_EXTERN) {
            uint64_t v = 0; memcpy(&v, ob->data + o, in->sub); R[in->dst] = CV(v & maskw(in->w)); break;
          }
        }
        Res r = loadVal(s, a, in->sub, in->w, out);
        if (r == DEAD) { delete sp; return; }
        if (r == REEXEC) { nInstr--; continue; }
        R[in->dst] = out;
        break;
      }
      case I_STORE: {
        Val a = OPV(in->a);
        if (in->imm) a = a.e ? norm(mkBin(O_ADD, a.e, mkConst(in->imm, 64))) : CV(a.v + in->imm);
        Res r = storeVal(s, a, in->sub, in->w, OPV(in->b));
        if (r == DEAD) { delete sp; return; }
        if (r == REEXEC) { continue; }
        break;
      }
      case I_GEP: {
        Val a = OPV(in->a);
        uint64_t off = in->imm;
        Expr *se = nullptr;
        if (in->p) for (auto &t : *(std::vector<GepTerm> *)in->p) {
          const Val &v = OPV(t.op);
          if (!v.e) off += (uint64_t)(sx(v.v, t.w) * t.scale);
          else { Expr *x = mkBin(O_MUL, mkSext(v.e, 64), mkConst((uint64_t)t.scale, 64)); se = se ? mkBin(O_ADD, se, x) : x; }
        }
        if (!a.e && !se) R[in->dst] = CV(a.v + off);
        else {
          Expr *x = a.e ? mkBin(O_ADD, a.e, mkConst(off, 64)) : mkConst(a.v + off, 64);
          if (se) x = mkBin(O_ADD, x, se);
          R[in->dst] = norm(x);
        }
        break;
      }
      case I_ALLOCA: {
        Val n = OPV(in->a);
        uint64_t k;
        if (n.e) { if (concretize(s, n.e, k) != CONT) { delete sp; return; } } else k = n.v;
        uint64_t ad = allocObj(s, in->imm * k, K_STACK, (const char *)in->p, true);
        f.allocas.push_back(ad >> 32);
        R[in->dst] = CV(ad);
        break;
      }
      case I_BR: takeEdge(s, (Edge *)in->p); continue;
      case I_CBR: {
        const Val &c = OPV(in->a);
        Edge **e = (Edge **)in->p;
        if (!c.e) { takeEdge(s, c.v ? e[0] : e[1]); continue; }
        bool taken;
        Res r = branchSym(s, c.e, taken);
        if (r == DEAD) { delete sp; return; }
        takeEdge(s, taken ? e[0] : e[1]);
        continue;
      }
      case I_SWITCH: {
        const Val &c = OPV(in->a);
        SW *sw = (SW *)in->p;
        uint64_t v;
        if (c.e) {
          // decide by case: fork on the case the model takes against the rest
          if (c.e->undef) {
            std::shared_ptr<Model> m;
            if (dependsOnUndef(s, c.e, &m)) { report(s, "uninit", "switch depends on uninitialised memory", m); delete sp; return; }
          }
          uint64_t mv = evalExpr(c.e, modelOf(s.pc));
          Edge *tgt = sw->def;
          for (auto &p : sw->cases) if (p.first == mv) tgt = p.second;
          Expr *cond = mkConst(tgt == sw->def ? 1 : 0, 1);
          if (tgt == sw->def) { for (auto &p : sw->cases) if (p.second->target != tgt->target || !p.second->copies.empty()) cond = mkBin(O_AND, cond, mkNot1(mkCmp(O_EQ, c.e, mkConst(p.first, in->w)))); }
          else for (auto &p : sw->cases) if (p.second == tgt || (p.second->target == tgt->target && p.second->copies == tgt->copies)) cond = mkBin(O_OR, cond, mkCmp(O_EQ, c.e, mkConst(p.first, in->w)));
          Expr *other = mkNot1(cond);
          std::shared_ptr<Model> m;
          Feas ff = feasible(s.pc, other, &m);
          if (ff == Feas::Unknown) { incomplete("solver unknown (switch)"); delete sp; return; }
          if (ff == Feas::Feasible) { push(fork(s, other, m)); addConstraint(s.pc, cond); }
          takeEdge(s, tgt);
          continue;
        }
        v = c.v;
        Edge *tgt = sw->def;
        for (auto &p : sw->cases) if (p.first == v) { tgt = p.second; break; }
        takeEdge(s, tgt);
        continue;
      }
      case I_RET: {
        Val rv[16]; std::vector<Val> rvv; Val *rp = rv; size_t n = 0;
        if (in->p) {
          auto *v = (std::vector<int32_t> *)in->p; n = v->size();
          if (n > 16) { rvv.resize(n); rp = rvv.data(); }
          for (size_t i = 0; i < n; i++) rp[i] = OPV((*v)[i]);
        }
        bool dtor = f.dtorCall;
        popFrame(s);
        if (s.frames.empty()) { endPath(s); delete sp; return; }
        RELOAD();
        Frame &cf = s.frames.back();
        Inst *cin = cf.pc;
        if (!dtor) {
          CallInfo *ci = (CallInfo *)cin->p;
          for (size_t i = 0; i < n && i < ci->retSlots; i++) R[cin->dst + i] = rp[i];
          if (cin->op == I_INVOKE) { takeEdge(s, ci->normal); continue; }
        } else if (cin->op == I_INVOKE) { takeEdge(s, ((CallInfo *)cin->p)->normal); continue; }
        cf.pc++;
        continue;
      }
      case I_CALL: case I_INVOKE: {
        CallInfo *ci = (CallInfo *)in->p;
        FnInfo *callee = ci->callee; int b = ci->builtin;
        if (!callee && b < 0) {
          Val t = OPV(ci->calleeOp); uint64_t a;
          if (t.e) { if (concretize(s, t.e, a) != CONT) { delete sp; return; } } else a = t.v;
          auto it = fnByObj.find(a >> 32);
          if (it == fnByObj.end() || (a & 0xffffffff) != kBase) {
            const char *k = "bad-call"; std::string msg = "indirect call through invalid pointer";
            uint32_t id, off; checkAddr(s, a, 1, false, id, off, k, msg);
            if (!strcmp(k, "unmodelled")) incomplete(msg); else report(s, k, "call: " + msg);
            delete sp; return;
          }
          callee = it->second;
        }
        if (callee) {
          if (callee->redirect) { modelCalls.insert(callee->name); callee = callee->redirect; }
          if (callee->builtin > 0) b = callee->builtin;
        }
        if (b >= 0) {
          Val ret[4]; ret[0] = ret[1] = CV(0);
          bool pushed = false;
          Res r = builtin(s, b, in, ci, ret, pushed);
          if (r == DEAD) { delete sp; return; }
          if (r == REEXEC) { RELOAD(); continue; }
          RELOAD();
          if (pushed) continue;       // control was transferred
          for (unsigned i = 0; i < ci->retSlots && i < 4; i++) R[in->dst + i] = ret[i];
          if (in->op == I_INVOKE) { takeEdge(s, ci->normal); continue; }
          break;
        }
        if (callee->F->isDeclaration()) {
          incomplete("unmodelled external function " + callee->name + stackStr(s));
          delete sp; return;
        }
        Val args[16]; std::vector<Val> av; Val *ap = args; size_t n = ci->args.size();
        if (n > 16) { av.resize(n); ap = av.data(); }
        for (size_t i = 0; i < n; i++) ap[i] = OPV(ci->args[i]);
        if (pushCall(s, callee, ap, n, ci->nfixed) != CONT) { delete sp; return; }
        RELOAD();
        continue;
      }
      case I_UNREACH: report(s, "unreachable", "unreachable code executed (undefined behaviour)"); delete sp; return;
      case I_LANDING: fprintf(stderr, "landing executed\n"); abort();
      case I_RESUME: {
        uint64_t obj = OPV(in->a).v;
        ExcRec *e = findExc(s, obj);
        if (!e) { incomplete("resume of unknown exception"); delete sp; return; }
        ExcRec ex = *e;
        popFrame(s);
        if (s.frames.empty()) { report(s, "uncaught-exception", "exception escapes"); delete sp; return; }
        if (unwindFrom(s, ex, false) != CONT) { delete sp; return; }
        RELOAD();
        continue;
      }
      case I_NOP: break;
      case I_RMW: {
        Val old; Val p = OPV(in->a);
        Res r = loadVal(s, p, in->w / 8, in->w, old);
        if (r != CONT) { delete sp; return; }
        Val v = OPV(in->b); Expr *x = E(old, in->w), *y = E(v, in->w), *nv = nullptr;
        switch (in->sub) {
          case AtomicRMWInst::Add: nv = mkBin(O_ADD, x, y); break; case AtomicRMWInst::Sub: nv = mkBin(O_SUB, x, y); break;
          case AtomicRMWInst::Xchg: nv = y; break; case AtomicRMWInst::And: nv = mkBin(O_AND, x, y); break; case AtomicRMWInst::Or: nv = mkBin(O_OR, x, y); break;
          default: incomplete("atomicrmw"); delete sp; return;
        }
        if (storeVal(s, p, in->w / 8, in->w, norm(nv)) != CONT) { delete sp; return; }
        R[in->dst] = old;
        break;
      }
      case I_CMPXCHG: {
        Val old; Val p = OPV(in->a);
        if (loadVal(s, p, in->w / 8, in->w, old) != CONT) { delete sp; return; }
        Expr *eq = mkCmp(O_EQ, E(old, in->w), E(OPV(in->b), in->w));
        if (!eq->isConst()) { incomplete("symbolic cmpxchg"); delete sp; return; }
        if (eq->val) if (storeVal(s, p, in->w / 8, in->w, OPV(in->c)) != CONT) { delete sp; return; }
        R[in->dst] = old; R[in->dst + 1] = CV(eq->val);
        break;
      }
      case I_FBIN: {
        Val a = OPV(in->a), b = OPV(in->b);
        if (a.e || b.e) { incomplete("symbolic floating point"); delete sp; return; }
        double x = fv(a.v, in->w), y = fv(b.v, in->w), r = 0;
        switch (in->sub) { case 0: r = x + y; break; case 1: r = x - y; break; case 2: r = x * y; break; case 3: r = x / y; break; default: r = fmod(x, y); }
        R[in->dst] = CV(tofv(r, in->w)); break;
      }
      case I_FCMP: {
        Val a = OPV(in->a), b = OPV(in->b);
        if (a.e || b.e) { incomplete("symbolic floating point"); delete sp; return; }
        double x = fv(a.v, in->w), y = fv(b.v, in->w); bool uno = x != x || y != y, r = false;
        unsigned p = in->sub; if (uno) r = p & 8; else { if (x == y) r = p & 1; else if (x > y) r = p & 2; else r = p & 4; }
        R[in->dst] = CV(r); break;
      }
      case I_FCAST: {
        Val a = OPV(in->a);
        if (a.e) { incomplete("symbolic floating point"); delete sp; return; }
        uint64_t r = 0;
        switch (in->flags) {
          case 0: r = tofv((double)a.v, in->w); break; case 1: r = tofv((double)sx(a.v, in->sub), in->w); break;
          case 2: r = (uint64_t)fv(a.v, in->sub) & maskw(in->w); break; case 3: r = (uint64_t)(int64_t)fv(a.v, in->sub) & maskw(in->w); break;
          default: r = tofv(fv(a.v, in->sub), in->w);
        }
        R[in->dst] = CV(r); break;
      }
      default: {
        std::string t; raw_string_ostream os(t); in->I->print(os);
        incomplete("unsupported instruction " + t + stackStr(s)); delete sp; return;
      }
    }
    s.frames.back().pc++;
  }
}

static Res builtin(State &s, int b, Inst *in, CallInfo *ci, Val *ret, bool &pushed) {
  Val *R = s.regs.data() + s.frames.back().base; Val *C = s.frames.back().fn->consts.data();
  auto arg = [&](unsigned i) -> Val { return OPV(ci->args[i]); };
#define CONCARG(i, x) uint64_t x; { Val _v = arg(i); if (_v.e) { if (concretize(s, _v.e, x) != CONT) return DEAD; } else x = _v.v; }
  switch (b) {
    case B_NATIVE: ret[0] = CV(0); return CONT;
    case B_SYMBOLIC: {
      CONCARG(0, p); CONCARG(1, n); CONCARG(2, np);
      std::string nm; if (readCStr(s, np, nm) != CONT) return DEAD;
      int k = s.nameCount[nm]++; nm += "#" + std::to_string(k);
      InputRec ir; ir.name = nm; ir.isConc = false; ir.conc = 0;
      std::vector<Val> bs;
      for (uint64_t i = 0; i < n; i++) { Expr *v = inputVar(nm, i); ir.bytes.push_back(v); bs.push_back(Val{0, v}); }
      s.inputs.push_back(ir);
      return n ? writeBytes(s, p, bs) : CONT;
    }
    case B_CHOOSE: {
      CONCARG(0, n); CONCARG(1, np);
      std::string nm; if (readCStr(s, np, nm) != CONT) return DEAD;
      if (n == 0) return DEAD;
      // n-way fork: alternatives re-execute as already-chosen via a pending value
      static std::unordered_map<State *, uint64_t> dummy;
      int k = s.nameCount[nm]++; std::string full = nm + "#" + std::to_string(k);
      uint64_t mine = 0;
      for (uint64_t i = n; i-- > 1;) {
        State *o = new State(s); nForks++; o->depth++;
        InputRec ir; ir.name = full; ir.isConc = true; ir.conc = i; o->inputs.push_back(ir);
        Frame &f = o->frames.back();
        o->regs[f.base + in->dst] = CV(i);
        if (in->op == I_INVOKE) takeEdge(*o, ci->normal); else f.pc++;
        push(o);
      }
      InputRec ir; ir.name = full; ir.isConc = true; ir.conc = mine; s.inputs.push_back(ir);
      ret[0] = CV(mine);
      return CONT;
    }
    case B_ASSUME: { Val c = arg(0); Expr *e = E(c, 32); return doAssume(s, mkNot1(mkCmp(O_EQ, e, mkConst(0, 32)))); }
    case B_ASSERT: {
      Val c = arg(0); CONCARG(1, lp);
      std::string lab; if (readCStr(s, lp, lab) != CONT) return DEAD;
      nAsserts++;
      Expr *e = mkNot1(mkCmp(O_EQ, E(c, 32), mkConst(0, 32)));
      if (e->isConst()) { if (e->val) return CONT; report(s, "assert", lab); return DEAD; }
      if (e->undef) { std::shared_ptr<Model> m; if (dependsOnUndef(s, e, &m)) { report(s, "uninit", "asserted value depends on uninitialised memory: " + lab, m); return DEAD; } }
      std::shared_ptr<Model> m; nAssertQ++;
      Feas f = feasible(s.pc, mkNot1(e), &m);
      if (f == Feas::Unknown) { incomplete("solver unknown (assert " + lab + ")"); return DEAD; }
      if (f == Feas::Feasible) { report(s, "assert", lab, m); return doAssume(s, e); }
      return CONT;
    }
    case B_REACH: { CONCARG(0, lp); std::string lab; if (readCStr(s, lp, lab) != CONT) return DEAD; reached[lab]++; return CONT; }
    case B_OBSERVE: {
      CONCARG(0, lp); CONCARG(1, p); CONCARG(2, n);
      std::string lab; if (readCStr(s, lp, lab) != CONT) return DEAD;
      ObsRec o; o.tag = lab; if (n) if (readBytes(s, p, n, o.bytes) != CONT) return DEAD;
      s.obs.push_back(o); return CONT;
    }
    case B_PARAM: { CONCARG(0, i); ret[0] = CV(i < gParams.size() ? gParams[i] : 0); return CONT; }
    case B_ISSYM: ret[0] = CV(arg(0).e != nullptr); return CONT;
    case B_MULTISYM: {
      CONCARG(0, p); CONCARG(1, n); std::vector<Val> v; if (n && readBytes(s, p, n, v) != CONT) return DEAD;
      ret[0] = CV(!allConc(v)); return CONT;
    }
    case B_USE: {      // the caller looks at these bytes: they must not be indeterminate
      CONCARG(0, p); CONCARG(1, n); std::vector<Val> v; if (n && readBytes(s, p, n, v) != CONT) return DEAD;
      for (auto &x : v) if (x.e && x.e->undef) { std::shared_ptr<Model> m; if (dependsOnUndef(s, x.e, &m)) { report(s, "uninit", "result depends on uninitialised memory", m); return DEAD; } }
      return CONT;
    }
    case B_SAME: { // structurally equal terms (1) or possibly different (0)
      Val x = arg(0), y = arg(1);
      ret[0] = CV(x.e || y.e ? x.e == y.e : x.v == y.v); return CONT;
    }
    case B_FRESH: { // (hint value, bits) -> fresh zero-extended variable whose model value is the hint
      Val h = arg(0); CONCARG(1, bits);
      uint64_t hv = h.e ? evalExpr(h.e, modelOf(s.pc)) : h.v;
      Expr *v = freshVar(s, "fresh", bits); s.pc.setModel(v->val, hv & maskw(bits));
      ret[0] = norm(mkZext(v, 64)); return CONT;
    }
    case B_CONC: { CONCARG(0, v); ret[0] = CV(v); return CONT; }
    case B_PICK: { Val h = arg(0); ret[0] = CV(h.e ? evalExpr(h.e, modelOf(s.pc)) : h.v); return CONT; }
    case B_HASH: {
      CONCARG(0, p); CONCARG(1, n); CONCARG(2, o);
      std::vector<Val> i, r; if (n && readBytes(s, p, n, i) != CONT) return DEAD;
      if (idealHash(s, i, r) != CONT) return DEAD;
      return writeBytes(s, o, r);
    }
    case B_PERM: {
      CONCARG(0, dec); CONCARG(1, kp); CONCARG(2, ip); CONCARG(3, op);
      std::vector<Val> k, i, r;
      if (readBytes(s, kp, 32, k) != CONT || readBytes(s, ip, 16, i) != CONT) return DEAD;
      if (idealPerm(s, dec, k, i, r) != CONT) return DEAD;
      return writeBytes(s, op, r);
    }
    case B_CRYPTOMODE: { CONCARG(0, m); s.cryptoMode = (int)m; return CONT; }
    case B_STEPBUDGET: { CONCARG(0, n); CONCARG(1, lp); std::string lab; if (n && readCStr(s, lp, lab) != CONT) return DEAD; s.stepMark = s.steps; s.stepBudget = n; s.stepLabel = lab; return CONT; }
    case B_ALLOCBUDGET: { CONCARG(0, n); s.allocBudget = n; s.allocBytes = 0; return CONT; }
    case B_FAIL: { CONCARG(0, kp); CONCARG(1, lp); std::string k, lab; if (readCStr(s, kp, k) != CONT || readCStr(s, lp, lab) != CONT) return DEAD; report(s, k, lab); return DEAD; }
    case B_UNSUP: { CONCARG(0, lp); std::string lab; if (readCStr(s, lp, lab) != CONT) return DEAD; incomplete("model: " + lab + stackStr(s)); return DEAD; }
    case B_DEBUG: {
      CONCARG(0, lp); std::string lab; if (readCStr(s, lp, lab) != CONT) return DEAD; Val v = arg(1);
      fprintf(stderr, "[debug] %s %s\n", lab.c_str(), v.e ? exprStr(v.e, 8).c_str() : std::to_string(v.v).c_str()); return CONT;
    }
    case B_END: nPathsAssume++; return DEAD;
    case B_UNCAUGHT: ret[0] = CV(s.uncaught); return CONT;
    case B_MALLOC: case B_NEW: case B_NEWARR: case B_CALLOC: case B_CXA_ALLOC: {
      CONCARG(0, n);
      if (b == B_CALLOC) { CONCARG(1, k); n *= k; }
      s.allocBytes += n;
      if (n > (256ull << 20) || (s.allocBudget && s.allocBytes > s.allocBudget)) { report(s, "excessive-allocation", "allocation of " + std::string(n > (256ull << 20) ? "over 256 MB" : "more memory than the budget")); return DEAD; }
      static std::unordered_map<const Instruction *, const char *> whats;
      const char *&wh = whats[in->I];
      if (!wh) {
        std::string d = "heap block allocated in ";
        d += demName(s.frames.back().fn->name).substr(0, 60);
        wh = internStr(d);
      }
      ret[0] = CV(allocObj(s, n, b == B_NEW ? K_NEW : b == B_NEWARR ? K_NEWARR : b == B_CXA_ALLOC ? K_EXC : K_MALLOC, wh, b != B_CALLOC));
      return CONT;
    }
    case B_REALLOC: {
      CONCARG(0, p); CONCARG(1, n);
      uint64_t np = allocObj(s, n, K_MALLOC, "heap block (realloc)", true);
      if (p) {
        uint32_t id, off; const char *k = "?"; std::string msg;
        MemObj *o = checkAddr(s, p, 1, false, id, off, k, msg);
        if (!o) return memFail(s, k, msg);
        copyBytes(s, np >> 32, 0, id, 0, std::min<uint64_t>(o->size, n));
        killObj(s, id);
      }
      ret[0] = CV(np); return CONT;
    }
    case B_FREE: case B_DEL: case B_DELARR: {
      CONCARG(0, p);
      if (!p) return CONT;
      uint32_t id = p >> 32; MemObj *o = getObj(s, id);
      if (!o || (p & 0xffffffff) != kBase || (o->kind != K_NEW && o->kind != K_NEWARR && o->kind != K_MALLOC)) { report(s, "bad-free", "free of a pointer that was not allocated"); return DEAD; }
      if (!o->alive) { report(s, "double-free", std::string("double free of ") + o->what); return DEAD; }
      if ((b == B_FREE && o->kind != K_MALLOC) || (b == B_DEL && o->kind != K_NEW) || (b == B_DELARR && o->kind != K_NEWARR)) { report(s, "mismatched-free", std::string("mismatched deallocation of ") + o->what); return DEAD; }
      killObj(s, id); return CONT;
    }
    case B_CXA_FREE: { CONCARG(0, p); killObj(s, p >> 32); return CONT; }
    case B_MEMCPY: case B_MEMMOVE: {
      CONCARG(0, d); CONCARG(1, sr); CONCARG(2, n);
      ret[0] = CV(d);
      if (!n) return CONT;
      uint32_t did, doff, sid, soff;
      if (rangeCheck(s, sr, n, false, sid, soff) != CONT || rangeCheck(s, d, n, true, did, doff) != CONT) return DEAD;
      copyBytes(s, did, doff, sid, soff, n);
      return CONT;
    }
    case B_MEMSET: {
      CONCARG(0, d); CONCARG(2, n); Val v = arg(1);
      ret[0] = CV(d);
      if (!n) return CONT;
      uint32_t id, off;
      if (rangeCheck(s, d, n, true, id, off) != CONT) return DEAD;
      if (v.e) { Expr *e = mkExtract(v.e, 0, 8); for (uint64_t i = 0; i < n; i++) storeObjByte(s, id, off + i, norm(e)); return CONT; }
      MemObj *o = getObjW(s, id);
      memset(o->data + off, (int)v.v, n);
      if (o->undef) { if (n == o->size) { free(o->undef); o->undef = nullptr; o->nundef = 0; } else clearUndef(o, off, n); }
      if (o->nsym) for (uint64_t i = 0; i < n; i++) if (o->sym[off + i].e) { o->sym[off + i].e = nullptr; o->nsym--; }
      return CONT;
    }
    case B_MEMCMP: case B_BCMP: {
      CONCARG(0, x); CONCARG(1, y); CONCARG(2, n);
      if (!n) { ret[0] = CV(0); return CONT; }
      uint32_t xi, xo, yi, yo;
      if (rangeCheck(s, x, n, false, xi, xo) != CONT || rangeCheck(s, y, n, false, yi, yo) != CONT) return DEAD;
      MemObj *a = getObj(s, xi), *c = getObj(s, yi);
      if (!a->nsym && !a->nundef && !c->nsym && !c->nundef) { int r = memcmp(a->data + xo, c->data + yo, n); ret[0] = CV((uint32_t)(r < 0 ? -1 : r > 0)); return CONT; }
      Expr *r = mkConst(0, 32);
      std::vector<Val> va, vb;
      for (uint64_t i = 0; i < n; i++) { va.push_back(loadObjByte(s, xi, xo + i)); vb.push_back(loadObjByte(s, yi, yo + i)); }
      if (b == B_BCMP) {
        r = mkIte(bytesEq(va, vb), mkConst(0, 32), mkConst(1, 32));
      } else for (int64_t i = (int64_t)n - 1; i >= 0; i--) {
        Expr *p = E(va[i], 8), *q = E(vb[i], 8);
        Expr *eq = mkCmp(O_EQ, p, q);
        if (eq->isConst() && eq->val) continue;
        Expr *lt = mkIte(mkCmp(O_ULT, p, q), mkConst(0xffffffff, 32), mkConst(1, 32));
        r = mkIte(eq, r, lt);
      }
      ret[0] = norm(r); return CONT;
    }
    case B_MEMCHR: {
      CONCARG(0, x); Val c = arg(1); CONCARG(2, n);
      if (!n) { ret[0] = CV(0); return CONT; }
      Expr *ce = c.e ? mkExtract(c.e, 0, 8) : mkConst(c.v, 8);
      // memchr only touches bytes up to the match; be exact when the range is short
      uint32_t xi, xo; 
      if (rangeCheck(s, x, n, false, xi, xo) != CONT) return DEAD;
      MemObj *a = getObj(s, xi);
      if (!a->nsym && !a->nundef && ce->isConst()) { void *p = memchr(a->data + xo, (int)ce->val, n); ret[0] = CV(p ? x + ((uint8_t *)p - (a->data + xo)) : 0); return CONT; }
      if (n > 2048) { incomplete("symbolic memchr over a long range"); return DEAD; }
      Expr *r = mkConst(0, 64);
      std::vector<Val> v; for (uint64_t i = 0; i < n; i++) v.push_back(loadObjByte(s, xi, xo + i));
      for (int64_t i = (int64_t)n - 1; i >= 0; i--) r = mkIte(mkCmp(O_EQ, E(v[i], 8), ce), mkConst(x + i, 64), r);
      ret[0] = norm(r); return CONT;
    }
    case B_STRLEN: {
      CONCARG(0, x);
      uint64_t n = 0;
      for (;;) {
        uint32_t id, off; const char *k = "?"; std::string msg;
        if (!checkAddr(s, x + n, 1, false, id, off, k, msg)) return memFail(s, k, msg);
        Val v = loadObjByte(s, id, off);
        if (v.e) {
          bool z;
          Expr *c = mkCmp(O_EQ, v.e, mkConst(0, 8));
          Res r = branchSym(s, c, z);
          if (r != CONT) return r;
          if (z) break;
        } else if (!v.v) break;
        n++;
      }
      ret[0] = CV(n); return CONT;
    }
    case B_CXA_THROW: {
      CONCARG(0, o); CONCARG(1, t); CONCARG(2, d);
      ExcRec e{o, t, d, 0, false}; s.excs.push_back(e); s.uncaught++;
      pushed = true;
      return unwindFrom(s, e, true);
    }
    case B_CXA_BEGIN: {
      CONCARG(0, o);
      ExcRec *e = findExc(s, o);
      if (e) { e->handlers++; if (e->rethrown) e->rethrown = false; s.caught.push_back(o); s.uncaught--; }
      ret[0] = CV(o); return CONT;
    }
    case B_CXA_GETPTR: { CONCARG(0, o); ret[0] = CV(o); return CONT; }
    case B_CXA_END: {
      if (s.caught.empty()) return CONT;
      uint64_t o = s.caught.back(); s.caught.pop_back();
      ExcRec *e = findExc(s, o);
      if (!e) return CONT;
      if (--e->handlers == 0 && !e->rethrown) {
        uint64_t d = e->dtor;
        s.excs.erase(s.excs.begin() + (e - s.excs.data()));
        if (d) {
          auto it = fnByObj.find(d >> 32);
          FnInfo *fi = it == fnByObj.end() ? nullptr : it->second;
          if (fi && fi->redirect) fi = fi->redirect;
          if (fi && !fi->F->isDeclaration()) {
            Val a = CV(o);
            if (pushCall(s, fi, &a, 1, 1) != CONT) return DEAD;
            s.frames.back().dtorCall = true;
            pushed = true;
          }
        }
      }
      return CONT;
    }
    case B_CXA_RETHROW: {
      if (s.caught.empty()) { report(s, "terminate", "rethrow without exception"); return DEAD; }
      ExcRec *e = findExc(s, s.caught.back());
      e->rethrown = true; s.uncaught++;
      ExcRec ex = *e; pushed = true;
      return unwindFrom(s, ex, true);
    }
    case B_UNWIND_RESUME: {
      CONCARG(0, o); ExcRec *e = findExc(s, o); if (!e) { incomplete("resume"); return DEAD; }
      ExcRec ex = *e; popFrame(s); pushed = true; return unwindFrom(s, ex, false);
    }
    case B_ASSERTFAIL: {
      CONCARG(0, ep); std::string ex; if (readCStr(s, ep, ex) != CONT) return DEAD;
      report(s, "abort", "assertion failed: " + ex); return DEAD;
    }
    case B_ABORT: report(s, "abort", "abort() called"); return DEAD;
    case B_EXIT: report(s, "abort", "exit() called"); return DEAD;
    case B_TERMINATE: report(s, "terminate", "std::terminate called"); return DEAD;
    case B_PUREVIRT: report(s, "abort", "pure virtual call"); return DEAD;
    case B_NOP0: ret[0] = CV(0); return CONT;
    case B_GUARD_ACQ: {
      CONCARG(0, g); Val v; if (loadVal(s, CV(g), 1, 8, v) != CONT) return DEAD;
      if (v.v) { ret[0] = CV(0); return CONT; }
      if (storeVal(s, CV(g), 1, 8, CV(1)) != CONT) return DEAD;
      ret[0] = CV(1); return CONT;
    }
    case B_DYNCAST: {
      CONCARG(0, p); CONCARG(2, dst);
      if (!p) { ret[0] = CV(0); return CONT; }
      Val vp; if (loadVal(s, CV(p), 8, 64, vp) != CONT) return DEAD;
      Val ti, ott; if (loadVal(s, CV(vp.v - 8), 8, 64, ti) != CONT || loadVal(s, CV(vp.v - 16), 8, 64, ott) != CONT) return DEAD;
      ret[0] = typeMatches(s, ti.v, dst) ? CV(p) : CV(0);
      if (typeMatches(s, ti.v, dst) && ott.v) incomplete("dynamic_cast with offset");
      return CONT;
    }
    // ---- intrinsics ----
    case B_I_LIFESTART: {
      Val p = arg(1);
      if (!p.e) { uint32_t id = p.v >> 32; MemObj *o = getObj(s, id); if (o && o->kind == K_STACK && o->alive && (p.v & 0xffffffff) == kBase) fillUndef(getObjW(s, id)); }
      return CONT;
    }
    case B_I_OVF: {
      unsigned w = ci->argw[0]; Val a = arg(0), c = arg(1); bool sg = in->sub & 4; int k = in->sub & 3;
      Op o = k == 0 ? O_ADD : k == 1 ? O_SUB : O_MUL;
      if (!a.e && !c.e) {
        bool ov;
        if (sg) { __int128 x = sx(a.v, w), y = sx(c.v, w), r = k == 0 ? x + y : k == 1 ? x - y : x * y; ov = r != (__int128)sx((uint64_t)r & maskw(w), w); ret[0] = CV((uint64_t)r & maskw(w)); }
        else { unsigned __int128 x = a.v, y = c.v, r = k == 0 ? x + y : k == 1 ? x - y : x * y; ov = k == 1 ? a.v < c.v : r > maskw(w); ret[0] = CV((uint64_t)r & maskw(w)); }
        ret[1] = CV(ov); return CONT;
      }
      Expr *x = E(a, w), *y = E(c, w), *r = mkBin(o, x, y), *ov;
      if (!sg) {
        if (k == 0) ov = mkCmp(O_ULT, r, x); else if (k == 1) ov = mkCmp(O_ULT, x, y);
        else {
          if (y->isConst() || x->isConst()) { if (x->isConst()) std::swap(x, y); ov = y->val ? mkCmp(O_ULT, mkConst(maskw(w) / y->val, w), x) : mkConst(0, 1); }
          else if (w <= 32) { Expr *xx = mkZext(x, 2 * w), *yy = mkZext(y, 2 * w); ov = mkNot1(mkCmp(O_EQ, mkExtract(mkBin(O_MUL, xx, yy), w, w), mkConst(0, w))); }
          else { incomplete("umul.overflow"); return DEAD; }
        }
      } else {
        if (k == 2) { if (w > 32) { incomplete("smul.overflow"); return DEAD; } Expr *p = mkBin(O_MUL, mkSext(x, 2 * w), mkSext(y, 2 * w)); ov = mkNot1(mkCmp(O_EQ, p, mkSext(r, 2 * w))); }
        else { Expr *xs = mkExtract(x, w - 1, 1), *ys = mkExtract(y, w - 1, 1), *rs = mkExtract(r, w - 1, 1);
          if (k == 0) ov = mkBin(O_AND, mkNot1(mkBin(O_XOR, xs, ys)), mkBin(O_XOR, xs, rs)); else ov = mkBin(O_AND, mkBin(O_XOR, xs, ys), mkBin(O_XOR, xs, rs)); }
      }
      ret[0] = norm(r); ret[1] = norm(ov); return CONT;
    }
    case B_I_MINMAX: {
      unsigned w = ci->argw[0]; Expr *x = E(arg(0), w), *y = E(arg(1), w);
      Expr *lt = mkCmp(in->sub >= 2 ? O_SLT : O_ULT, x, y);
      ret[0] = norm(in->sub & 1 ? mkIte(lt, y, x) : mkIte(lt, x, y)); return CONT;
    }
    case B_I_ABS: { unsigned w = ci->argw[0]; Expr *x = E(arg(0), w); ret[0] = norm(mkIte(mkExtract(x, w - 1, 1), mkBin(O_SUB, mkConst(0, w), x), x)); return CONT; }
    case B_I_FSH: {
      unsigned w = ci->argw[0]; Val sv = arg(2);
      if (sv.e) {
        Expr *x = E(arg(0), w), *y = E(arg(1), w), *sh = mkBin(O_UREM, sv.e, mkConst(w, w)), *inv = mkBin(O_SUB, mkConst(w, w), sh);
        ret[0] = in->sub == 0 ? norm(mkBin(O_OR, mkBin(O_SHL, x, sh), mkBin(O_LSHR, y, inv))) : norm(mkBin(O_OR, mkBin(O_SHL, x, inv), mkBin(O_LSHR, y, sh)));
        return CONT;
      }
      unsigned k = sv.v % w; if (in->sub == 1) k = (w - k) % w;
      Expr *x = E(arg(0), w), *y = E(arg(1), w);
      if (in->sub == 1 && k == 0) { ret[0] = norm(y); return CONT; }
      ret[0] = k == 0 ? norm(x) : norm(mkConcat(mkExtract(x, 0, w - k), mkExtract(y, w - k, k))); return CONT;
    }
    case B_I_CTLZ: case B_I_CTTZ: case B_I_CTPOP: {
      unsigned w = ci->argw[0]; Expr *x = E(arg(0), w);
      if (x->isConst()) { uint64_t v = x->val; unsigned r = 0;
        if (b == B_I_CTPOP) r = __builtin_popcountll(v); else if (b == B_I_CTLZ) { r = w; for (int i = (int)w - 1; i >= 0; i--) if ((v >> i) & 1) { r = w - 1 - i; break; } } else { r = w; for (unsigned i = 0; i < w; i++) if ((v >> i) & 1) { r = i; break; } }
        ret[0] = CV(r); return CONT; }
      Expr *r;
      if (b == B_I_CTPOP) { r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(O_ADD, r, mkZext(mkExtract(x, i, 1), w)); }
      else { r = mkConst(w, w); if (b == B_I_CTLZ) for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); else for (int i = (int)w - 1; i >= 0; i--) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); }
      ret[0] = norm(r); return CONT;
    }
    case B_I_BSWAP: { unsigned w = ci->argw[0]; Expr *x = E(arg(0), w), *r = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr *p = mkExtract(x, i, 8); r = r ? mkConcat(r, p) : p; } ret[0] = norm(r); return CONT; }
    case B_I_EXPECT: ret[0] = arg(0); return CONT;
    case B_I_SAT: { unsigned w = ci->argw[0]; Expr *x = E(arg(0), w), *y = E(arg(1), w);
      if (in->sub == 0) ret[0] = norm(mkIte(mkCmp(O_ULT, x, y), mkConst(0, w), mkBin(O_SUB, x, y)));
      else { Expr *r = mkBin(O_ADD, x, y); ret[0] = norm(mkIte(mkCmp(O_ULT, r, x), mkConst(maskw(w), w), r)); } return CONT; }
    case B_I_TYPEID: ret[0] = CV((uint32_t)typeIdOf(arg(0).v)); return CONT;
    case B_I_VASTART: {
      CONCARG(0, p); Frame &f = s.frames.back();
      uint64_t a = allocObj(s, 8 * f.varargs.size() + 8, K_STACK, "varargs", true); f.allocas.push_back(a >> 32);
      for (size_t i = 0; i < f.varargs.size(); i++) storeObj(s, a >> 32, 8 * i, 8, 64, f.varargs[i].e && f.varargs[i].e->w < 64 ? norm(mkZext(f.varargs[i].e, 64)) : f.varargs[i]);
      if (storeVal(s, CV(p), 4, 32, CV(48)) != CONT || storeVal(s, CV(p + 4), 4, 32, CV(304)) != CONT || storeVal(s, CV(p + 8), 8, 64, CV(a)) != CONT || storeVal(s, CV(p + 16), 8, 64, CV(0)) != CONT) return DEAD;
      return CONT;
    }
    case B_I_VACOPY: { CONCARG(0, d); CONCARG(1, sr); uint32_t a, ao, c, co; if (rangeCheck(s, sr, 24, false, a, ao) != CONT || rangeCheck(s, d, 24, true, c, co) != CONT) return DEAD; copyBytes(s, c, co, a, ao, 24); return CONT; }
    case B_I_TRAP: report(s, "trap", "trap executed"); return DEAD;
    case B_I_OBJSIZE: ret[0] = CV(~0ull); return CONT;
    case B_I_ISCONST: ret[0] = CV(0); return CONT;
    case B_I_FABS: { Val a = arg(0); if (a.e) { incomplete("symbolic fp"); return DEAD; } ret[0] = CV(tofv(fabs(fv(a.v, ci->argw[0])), ci->argw[0])); return CONT; }
    default: incomplete("builtin " + std::to_string(b)); return DEAD;
  }
}

// ---------------- setup ----------------
static void initGlobal(State &s, uint32_t id, uint64_t off, const Constant *C) {
  Type *t = C->getType();
  if (isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) return;
  if (isa<UndefValue>(C)) return;
  MemObj *o = getObj(s, id);
  if (auto *cd = dyn_cast<ConstantDataSequential>(C)) {
    StringRef raw = cd->getRawDataValues(); memcpy(o->data + off, raw.data(), raw.size()); return;
  }
  if (t->isStructTy()) {
    const StructLayout *sl = DL->getStructLayout(cast<StructType>(t));
    for (unsigned i = 0; i < t->getStructNumElements(); i++) initGlobal(s, id, off + sl->getElementOffset(i), C->getAggregateElement(i));
    return;
  }
  if (t->isArrayTy()) {
    uint64_t es = DL->getTypeAllocSize(t->getArrayElementType());
    for (unsigned i = 0; i < t->getArrayNumElements(); i++) initGlobal(s, id, off + i * es, C->getAggregateElement(i));
    return;
  }
  if (t->isVectorTy()) {
    auto *vt = cast<FixedVectorType>(t); uint64_t es = DL->getTypeStoreSize(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++) initGlobal(s, id, off + i * es, C->getAggregateElement(i));
    return;
  }
  uint64_t n = DL->getTypeStoreSize(t);
  if (auto *ci = dyn_cast<ConstantInt>(C)) if (ci->getBitWidth() > 64) { APInt v = ci->getValue(); for (uint64_t i = 0; i < n; i++) o->data[off + i] = (uint8_t)v.extractBitsAsZExtValue(std::min<unsigned>(8, v.getBitWidth() - i * 8), i * 8); return; }
  if (t->isX86_FP80Ty()) { APInt v = cast<ConstantFP>(C)->getValueAPF().bitcastToAPInt(); for (uint64_t i = 0; i < 10; i++) o->data[off + i] = (uint8_t)v.extractBitsAsZExtValue(8, i * 8); return; }
  uint64_t v = constScalar(C).v;
  memcpy(o->data + off, &v, n);
}

static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else if (c >= 127) r += '?'; else r += c;
  }
  return r + "\"";
}

int engineMain(int argc, char **argv) {
  std::string bc, entry = "kp_main", outp; double timeLimit = 600;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nxt();
    else if (a == "--out") outp = nxt();
    else if (a == "--time") timeLimit = atof(nxt().c_str());
    else if (a == "--param") gParams.push_back(strtoull(nxt().c_str(), 0, 0));
    else if (a == "--samples") gSamples = atoi(nxt().c_str());
    else if (a == "--repo") repoPrefix = nxt();
    else if (a == "--seed") gSeed = strtoull(nxt().c_str(), 0, 0);
    else if (a == "--z3ms") gZ3TimeoutMs = atoi(nxt().c_str());
    else if (a == "--crosscheck") gCrossCheck = true;
    else if (a == "--trace") gTrace = true;
    else if (a == "--mem") gMemLimitMB = strtoull(nxt().c_str(), 0, 0);
    else if (a == "--maxsteps") gMaxStepsPath = strtoull(nxt().c_str(), 0, 0);
    else bc = a;
  }
  double t0 = nowSec();
  gDeadline = t0 + timeLimit;
  LLVMContext ctx; SMDiagnostic err;
  M = parseIRFile(bc, err, ctx);
  if (!M) { err.print("kpx", errs()); return 3; }
  DL = &M->getDataLayout();
  solverInit();
  State *s0 = new State();
  // functions
  for (auto &F : *M) {
    FnInfo *fi = new FnInfo(); fi->F = &F; fi->name = F.getName().str(); fi->vararg = F.isVarArg();
    uint64_t a = allocObj(*s0, 1, K_FUNC, internStr("function " + fi->name), false);
    fi->addr = a; gvAddr[&F] = a; fnByObj[a >> 32] = fi; fnInfo[&F] = fi; allFns.push_back(fi);
    auto it = kBuiltins.find(fi->name);
    if (it != kBuiltins.end()) fi->builtin = it->second;
    fi->inRepo = !F.isDeclaration() && isRepoFile(&F);
  }
  for (auto *fi : allFns) if (Function *m = M->getFunction("kpm_" + fi->name)) if (!m->isDeclaration()) fi->redirect = fnInfo[m];
  for (auto &G : M->globals()) {
    uint64_t sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 256;
    bool ext = G.isDeclaration();
    uint64_t a = allocObj(*s0, ext ? std::max<uint64_t>(sz, 256) : sz, ext ? K_EXTERN : K_GLOBAL, internStr("global " + demName(G.getName().str())), false);
    gvAddr[&G] = a;
    if (G.getName() == "_ZTVN10__cxxabiv117__class_type_infoE") zti_class = a;
    if (G.getName() == "_ZTVN10__cxxabiv120__si_class_type_infoE") zti_si = a;
    if (G.getName() == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") zti_vmi = a;
  }
  for (auto &A : M->aliases()) { auto it = gvAddr.find(cast<GlobalValue>(A.getAliaseeObject())); gvAddr[&A] = it->second; }
  for (auto &G : M->globals()) if (G.hasInitializer()) {
    uint32_t id = gvAddr[&G] >> 32;
    initGlobal(*s0, id, 0, G.getInitializer());
    if (G.isConstant()) getObj(*s0, id)->readonly = true;
  }
  Function *mainF = M->getFunction(entry);
  if (!mainF) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  // constructors then main: build a driver list executed as successive frames (pushed in reverse)
  std::vector<std::pair<unsigned, Function *>> ctors;
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
    for (auto &o : ca->operands()) {
      auto *cs = cast<ConstantStruct>(o);
      if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({(unsigned)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
    }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  // driver function: synthesised list of calls
  FnInfo *drv = new FnInfo(); drv->F = mainF; drv->name = "<start>"; drv->decoded = true; drv->nregs = 4;
  auto addCall = [&](Function *f) {
    Inst in; memset(&in, 0, sizeof in); in.op = I_CALL; auto *ci = new CallInfo(); ci->callee = fnInfo[f]; ci->builtin = -1; ci->calleeOp = 0; ci->nfixed = 0; ci->normal = ci->unwind = nullptr; ci->retSlots = 0; in.p = ci; drv->code.push_back(in);
  };
  for (auto &c : ctors) addCall(c.second);
  addCall(mainF);
  { Inst in; memset(&in, 0, sizeof in); in.op = I_RET; drv->code.push_back(in); }
  drv->blockStart.push_back(0);
  pushCall(*s0, drv, nullptr, 0, 0);
  push(s0);
  while (!work.empty() && !gStop) {
    if (nowSec() > gDeadline) { incomplete("time limit"); break; }
    State *s = work.back(); work.pop_back();
    runState(s);
  }
  if (!work.empty() && !gStop) incomplete("unexplored states");
  double wall = nowSec() - t0;
  FILE *f = outp.empty() ? stdout : fopen(outp.c_str(), "w");
  fprintf(f, "{\n \"complete\": %s,\n", incompleteReasons.empty() ? "true" : "false");
  fprintf(f, " \"incomplete\": {");
  { bool c = false; for (auto &p : incompleteReasons) { fprintf(f, "%s%s: %llu", c ? ", " : "", jstr(p.first.substr(0, 900)).c_str(), (unsigned long long)p.second); c = true; } }
  fprintf(f, "},\n \"paths\": %llu, \"paths_assumed_away\": %llu, \"forks\": %llu, \"instructions\": %llu, \"asserts_checked\": %llu, \"assert_queries\": %llu,\n",
          (unsigned long long)nPathsDone, (unsigned long long)nPathsAssume, (unsigned long long)nForks, (unsigned long long)nInstr, (unsigned long long)nAsserts, (unsigned long long)nAssertQ);
  fprintf(f, " \"solver\": {\"structural\": %llu, \"witness_by_evaluation\": %llu, \"byte_domain\": %llu, \"z3_queries\": %llu, \"z3_sat\": %llu, \"z3_unsat\": %llu, \"z3_unknown\": %llu, \"cache_hits\": %llu, \"z3_seconds\": %.3f, \"z3_max_seconds\": %.3f, \"crosschecked\": %llu, \"crosscheck_bad\": %llu, \"exprs\": %llu},\n",
          (unsigned long long)gStats.decided_struct, (unsigned long long)gStats.guessed, (unsigned long long)gStats.decided_dom, (unsigned long long)gStats.z3_queries, (unsigned long long)gStats.z3_sat, (unsigned long long)gStats.z3_unsat, (unsigned long long)gStats.z3_unknown, (unsigned long long)gStats.cache_hits, gStats.z3_time, gStats.z3_max, (unsigned long long)gStats.crosschecked, (unsigned long long)gStats.crosscheck_bad, (unsigned long long)gExprCount);
  fprintf(f, " \"wall_s\": %.3f,\n \"reached\": {", wall);
  { bool c = false; for (auto &p : reached) { fprintf(f, "%s%s: %llu", c ? ", " : "", jstr(p.first).c_str(), (unsigned long long)p.second); c = true; } }
  fprintf(f, "},\n \"functions\": [");
  { bool c = false; for (auto *fi : allFns) if (fi->executed && fi->inRepo) { fprintf(f, "%s%s", c ? ", " : "", jstr(demName(fi->name)).c_str()); c = true; } }
  fprintf(f, "],\n \"models\": [");
  { bool c = false; for (auto &n : modelCalls) { fprintf(f, "%s%s", c ? ", " : "", jstr(demName(n)).c_str()); c = true; } }
  fprintf(f, "],\n \"violations\": [");
  bool cv = false;
  auto kv = [&](const std::vector<std::pair<std::string, std::string>> &v) { std::string r = "["; bool c = false; for (auto &p : v) { if (c) r += ", "; c = true; r += "[" + jstr(p.first) + ", " + jstr(p.second) + "]"; } return r + "]"; };
  for (auto &v : violations) {
    fprintf(f, "%s\n  {\"kind\": %s, \"label\": %s, \"where\": %s, \"stack\": [", cv ? "," : "", jstr(v.kind).c_str(), jstr(v.label).c_str(), jstr(v.where).c_str());
    cv = true; bool c = false;
    for (auto &x : v.stack) { fprintf(f, "%s%s", c ? ", " : "", jstr(x).c_str()); c = true; }
    fprintf(f, "], \"inputs\": %s}", kv(v.inputs).c_str());
  }
  fprintf(f, "],\n \"violation_counts\": {");
  { bool c = false; for (auto &p : vioCount) { fprintf(f, "%s%s: %d", c ? ", " : "", jstr(p.first).c_str(), p.second); c = true; } }
  fprintf(f, "},\n \"samples\": [");
  { bool c = false; for (auto &x : samples) { fprintf(f, "%s\n  {\"inputs\": %s, \"observed\": %s}", c ? "," : "", kv(x.inputs).c_str(), kv(x.obs).c_str()); c = true; } }
  fprintf(f, "]\n}\n");
  if (f != stdout) fclose(f);
  fflush(nullptr);
  _exit(0);
}
}  // namespace kpx

#include <pthread.h>
static int gArgc; static char **gArgv;
static void *thr(void *) { kpx::engineMain(gArgc, gArgv); return nullptr; }
int main(int argc, char **argv) {
  if (argc >= 2 && !strcmp(argv[1], "--selftest")) return kpx::exprSelfTest(argc > 2 ? atoll(argv[2]) : 2000, argc > 3 ? atoll(argv[3]) : 1) ? 1 : 0;
  gArgc = argc; gArgv = argv;
  size_t sz = 2ull << 30;
  void *st = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, st, sz);
  pthread_t t; pthread_create(&t, &at, thr, nullptr); pthread_join(t, nullptr);
  return 3;
}
