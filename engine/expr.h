// Hash-consed bit-vector expressions (width 1..64) with eager simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <memory>

namespace kpx {

enum Op : uint8_t {
  O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_CONCAT, O_EXTRACT, O_SEXT, O_ITE, O_LOOKUP
};

struct VarSet { std::vector<uint32_t> v; uint32_t id; };
struct Table { uint8_t lw; uint8_t w; std::vector<uint64_t> v; uint32_t id; };

struct Expr {
  Op op; uint8_t w; bool undef; uint8_t pad;
  uint32_t id;
  Expr *a, *b, *c;
  uint64_t val;            // CONST value / VAR id / EXTRACT offset
  const Table *tab;
  Expr *leaf;              // narrow expression this one is a unary function of
  uint64_t kz;             // known-zero bits (within width)
  const VarSet *sup;
  uint64_t evalEpoch; uint64_t evalVal;
  bool isConst() const { return op == O_CONST; }
};

struct VarInfo { std::string name; uint8_t w; bool undef; int input; uint32_t idx; };
extern std::vector<VarInfo> gVars;
Expr *varById(uint32_t id);

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  return (int64_t)(((v & maskw(w)) ^ m) - m);
}

Expr *mkConst(uint64_t v, unsigned w);
Expr *mkVar(const std::string &name, unsigned w, bool undef, int input = -1, uint32_t idx = 0);
Expr *mkBin(Op op, Expr *a, Expr *b);      // arithmetic, bitwise, shifts
Expr *mkCmp(Op op, Expr *a, Expr *b);      // EQ ULT ULE SLT SLE -> width 1
Expr *mkNot1(Expr *a);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkExtract(Expr *a, unsigned off, unsigned w);
Expr *mkZext(Expr *a, unsigned w);
Expr *mkSext(Expr *a, unsigned w);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkLookup(Expr *leaf, const std::vector<uint64_t> &tab, unsigned w);
// table of e as a function of its leaf L (size 2^L->w); e must be const or have leaf L
void tabulate(Expr *e, Expr *L, std::vector<uint64_t> &out);
uint64_t evalOp(Op op, uint64_t a, uint64_t b, unsigned w);  // w: operand width

struct Model { std::vector<uint64_t> v; };
uint64_t evalExpr(Expr *e, const Model &m);   // memoised per call epoch
void evalNewEpoch();
uint64_t evalExprNE(Expr *e, const Model &m); // same epoch (caller controls)

extern uint64_t gExprCount;
uint64_t exprSelfTest(uint64_t iters, uint64_t seed);
std::string exprStr(Expr *e, int depth = 6);
}
