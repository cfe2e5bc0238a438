// Symbolic executor for LLVM IR.
#pragma once
#include "expr.h"
#include "solver.h"
#include <deque>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace llvm { class Module; class Function; class Instruction; class Value; class Type; class GlobalVariable; class Constant; class DataLayout; class BasicBlock; }

namespace kpx {

struct Val { uint64_t v; Expr *e; };
inline Val CV(uint64_t v) { return Val{v, nullptr}; }

static const uint64_t kBase = 0x10000;
enum ObjKind : uint8_t { K_GLOBAL, K_STACK, K_MALLOC, K_NEW, K_NEWARR, K_FUNC, K_EXTERN, K_EXC };
struct Cell { Expr *e; uint32_t idx; uint32_t pad; };
struct MemObj {
  int rc; uint32_t size; ObjKind kind; bool alive; bool readonly;
  uint8_t *data; Cell *sym; uint64_t *undef; uint32_t nundef; uint32_t nsym;
  const char *what; uint64_t aux;
};
static const int kChunk = 64;
struct Chunk { int rc; MemObj *o[kChunk]; };

struct FnInfo;
struct Edge { uint32_t target; std::vector<std::pair<uint32_t, int32_t>> copies; };
struct GepTerm { int32_t op; int64_t scale; uint8_t w; };
struct SlotDesc { uint32_t off; uint8_t w; };
struct Inst {
  uint8_t op, w, sub, flags;
  uint32_t dst; int32_t a, b, c;
  uint64_t imm;
  void *p;                       // op-specific payload
  const llvm::Instruction *I;
};
struct LandingClause { bool filter; bool all; std::vector<uint64_t> types; };
struct CallInfo {
  FnInfo *callee; int builtin; int32_t calleeOp;
  std::vector<int32_t> args;     // flattened slots
  uint32_t nfixed;
  Edge *normal, *unwind;         // invoke only
  uint8_t retSlots;
  std::vector<uint8_t> argw;
};
struct LandingInfo { bool cleanup; std::vector<LandingClause> clauses; };
struct FnInfo {
  const llvm::Function *F; std::string name;
  bool decoded = false, executed = false, inRepo = false, isModel = false;
  uint64_t instrs = 0;
  std::vector<Inst> code; std::vector<uint32_t> blockStart; std::vector<Val> consts;
  uint32_t nregs = 0; uint32_t nargs = 0; int builtin = -1; FnInfo *redirect = nullptr;
  uint64_t addr = 0; bool vararg = false;
};

struct Frame {
  FnInfo *fn; Inst *pc; uint32_t base; std::vector<uint32_t> allocas; std::vector<Val> varargs; bool dtorCall;
};
struct InputRec { std::string name; std::vector<Expr *> bytes; uint64_t conc; bool isConc; };
struct ObsRec { std::string tag; std::vector<Val> bytes; };
struct ExcRec { uint64_t obj, tinfo, dtor; int handlers; bool rethrown; };
struct HashRec { std::vector<Val> in; std::vector<Val> out; };
struct PermRec { std::vector<Val> key, pt, ct; bool conc = false; };

struct State {
  std::vector<Frame> frames; std::vector<Val> regs;
  std::vector<Chunk *> chunks; uint32_t nextObj;
  std::deque<uint32_t> freeIds;
  PathCond pc;
  std::vector<InputRec> inputs; std::map<std::string, int> nameCount;
  std::vector<ObsRec> obs;
  std::vector<ExcRec> excs; std::vector<uint64_t> caught; int uncaught = 0;
  std::vector<HashRec> hashes; std::vector<std::shared_ptr<const PermRec>> perms;
  int cryptoMode = 0; uint64_t steps = 0; uint64_t depth = 0; uint64_t stepMark = 0, stepBudget = 0; std::string stepLabel;
  uint64_t allocBytes = 0; uint64_t allocBudget = 0;
  std::map<std::string, int> freshCount;
  State() : nextObj(1) {}
  State(const State &o);
  ~State();
};

struct Violation {
  std::string kind, label, where; std::vector<std::string> stack;
  std::vector<std::pair<std::string, std::string>> inputs;  // name, hex
};
}
