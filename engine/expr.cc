#include "expr.h"
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <functional>

namespace kpx {
std::vector<VarInfo> gVars;
static std::vector<Expr *> gVarExprs;
Expr *varById(uint32_t id) { return gVarExprs[id]; }
uint64_t gExprCount = 0;

// ---------- var sets ----------
namespace {
struct VSHash { size_t operator()(const std::vector<uint32_t> &v) const {
  uint64_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
std::unordered_map<std::vector<uint32_t>, VarSet *, VSHash> vsTab;
std::vector<VarSet *> vsById;
std::unordered_map<uint64_t, const VarSet *> vsUnion;
const VarSet *internVS(std::vector<uint32_t> &&v) {
  auto it = vsTab.find(v);
  if (it != vsTab.end()) return it->second;
  VarSet *s = new VarSet{v, (uint32_t)vsById.size()};
  vsById.push_back(s); vsTab.emplace(std::move(v), s);
  return s;
}
const VarSet *emptyVS() { static const VarSet *e = internVS({}); return e; }
const VarSet *unionVS(const VarSet *a, const VarSet *b) {
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  if (a->id > b->id) std::swap(a, b);
  uint64_t k = ((uint64_t)a->id << 32) | b->id;
  auto it = vsUnion.find(k);
  if (it != vsUnion.end()) return it->second;
  std::vector<uint32_t> r; r.reserve(a->v.size() + b->v.size());
  std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  const VarSet *s = internVS(std::move(r));
  vsUnion.emplace(k, s);
  return s;
}

// ---------- tables ----------
struct TabKeyHash { size_t operator()(const Table *t) const {
  uint64_t h = 1469598103934665603ull ^ (t->lw * 131 + t->w);
  for (auto x : t->v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
struct TabKeyEq { bool operator()(const Table *a, const Table *b) const {
  return a->lw == b->lw && a->w == b->w && a->v == b->v; } };
std::unordered_map<const Table *, const Table *, TabKeyHash, TabKeyEq> tabTab;
const Table *internTable(unsigned lw, unsigned w, const std::vector<uint64_t> &v) {
  static Table probe; probe.lw = lw; probe.w = w; probe.v = v;
  auto it = tabTab.find(&probe);
  if (it != tabTab.end()) return it->second;
  Table *t = new Table{(uint8_t)lw, (uint8_t)w, v, (uint32_t)tabTab.size()};
  tabTab.emplace(t, t);
  return t;
}

// ---------- hash consing ----------
Expr **htab; size_t hcap, hcount;
inline uint64_t hashKey(Op op, unsigned w, Expr *a, Expr *b, Expr *c, uint64_t val, const Table *t) {
  uint64_t h = (uint64_t)op * 0x9E3779B97F4A7C15ull + w * 0xC2B2AE3D27D4EB4Full;
  auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(c ? c->id + 1 : 0); mix(val); mix(t ? t->id + 1 : 0);
  return h;
}
Expr *arena = nullptr; size_t arenaLeft = 0;
uint32_t nextId = 0;
void grow() {
  size_t nc = hcap ? hcap * 2 : (1 << 16);
  Expr **nt = (Expr **)calloc(nc, sizeof(Expr *));
  for (size_t i = 0; i < hcap; i++) if (htab[i]) {
    Expr *e = htab[i];
    uint64_t h = hashKey(e->op, e->w, e->a, e->b, e->c, e->val, e->tab);
    size_t j = h & (nc - 1); while (nt[j]) j = (j + 1) & (nc - 1); nt[j] = e;
  }
  free(htab); htab = nt; hcap = nc;
}
Expr *node(Op op, unsigned w, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr,
           uint64_t val = 0, const Table *t = nullptr) {
  if (hcount * 2 >= hcap) grow();
  uint64_t h = hashKey(op, w, a, b, c, val, t);
  size_t j = h & (hcap - 1);
  while (htab[j]) {
    Expr *e = htab[j];
    if (e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->val == val && e->tab == t) return e;
    j = (j + 1) & (hcap - 1);
  }
  if (!arenaLeft) { arena = (Expr *)malloc(sizeof(Expr) * 8192); arenaLeft = 8192; }
  Expr *e = arena++; arenaLeft--;
  e->op = op; e->w = w; e->a = a; e->b = b; e->c = c; e->val = val; e->tab = t; e->pad = 0;
  e->id = nextId++; e->evalEpoch = 0; e->evalVal = 0;
  gExprCount++;
  htab[j] = e; hcount++;
  e->undef = (a && a->undef) || (b && b->undef) || (c && c->undef);
  const VarSet *s = emptyVS();
  if (a) s = unionVS(s, a->sup);
  if (b) s = unionVS(s, b->sup);
  if (c) s = unionVS(s, c->sup);
  e->sup = s;
  uint64_t m = maskw(w), kz = 0;
  switch (op) {
    case O_CONST: kz = ~val & m; break;
    case O_AND: kz = (a->kz | b->kz) & m; break;
    case O_OR: case O_XOR: kz = a->kz & b->kz & m; break;
    case O_CONCAT: kz = ((a->kz << b->w) | b->kz) & m; break;
    case O_EXTRACT: kz = (a->kz >> val) & m; break;
    case O_ITE: kz = b->kz & c->kz & m; break;
    case O_ADD: {
      uint64_t ma = ~a->kz & m, mb = ~b->kz & m;
      unsigned __int128 s2 = (unsigned __int128)ma + mb;
      if (s2 <= m) { uint64_t top = (uint64_t)s2; uint64_t mm = 0; while (mm < top) mm = (mm << 1) | 1; kz = ~mm & m; }
      break;
    }
    case O_UDIV: case O_LSHR: { uint64_t ma = ~a->kz & m; if (op == O_UDIV && b->isConst() && b->val) ma /= b->val; uint64_t mm = 0; while (mm < ma) mm = (mm << 1) | 1; kz = ~mm & m; break; }
    case O_UREM: if (b->isConst() && b->val) { uint64_t ma = b->val - 1; uint64_t mm = 0; while (mm < ma) mm = (mm << 1) | 1; kz = ~mm & m; } break;
    case O_MUL: {
      uint64_t ma = ~a->kz & m, mb = ~b->kz & m;
      unsigned __int128 s2 = (unsigned __int128)ma * mb;
      if (s2 <= m) { uint64_t top = (uint64_t)s2; uint64_t mm = 0; while (mm < top) mm = (mm << 1) | 1; kz = ~mm & m; }
      break;
    }
    case O_LOOKUP: { uint64_t o = 0; for (auto x : t->v) o |= x; kz = ~o & m; break; }
    default: break;
  }
  e->kz = kz;
  // leaf
  Expr *L = nullptr;
  if (op == O_LOOKUP) L = a;
  else if (op == O_XOR && b->isConst()) L = a->leaf;
  else if (op == O_EXTRACT || op == O_SEXT) L = a->leaf;
  else if (op == O_CONCAT) {
    if (a->isConst()) L = b->leaf; else if (b->isConst()) L = a->leaf; else if (a->leaf == b->leaf) L = a->leaf;
  }
  if (!L && op != O_CONST && w <= 8 && op != O_ADD && op != O_SUB && op != O_MUL) L = e;
  if (op == O_CONST) L = nullptr;
  e->leaf = L;
  return e;
}
}  // namespace

uint64_t evalOp(Op op, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = maskw(w);
  switch (op) {
    case O_ADD: return (a + b) & m;
    case O_SUB: return (a - b) & m;
    case O_MUL: return (a * b) & m;
    case O_UDIV: return b ? (a / b) & m : m;
    case O_UREM: return b ? (a % b) & m : a;
    case O_SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
    case O_SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << b) & m;
    case O_LSHR: return b >= w ? 0 : (a & m) >> b;
    case O_ASHR: return b >= w ? (sx(a, w) < 0 ? m : 0) : (uint64_t)(sx(a, w) >> b) & m;
    case O_EQ: return a == b;
    case O_ULT: return a < b;
    case O_ULE: return a <= b;
    case O_SLT: return sx(a, w) < sx(b, w);
    case O_SLE: return sx(a, w) <= sx(b, w);
    default: abort();
  }
}

Expr *mkConst(uint64_t v, unsigned w) {
  return node(O_CONST, w, nullptr, nullptr, nullptr, v & maskw(w));
}
Expr *mkVar(const std::string &name, unsigned w, bool undef, int input, uint32_t idx) {
  uint32_t id = gVars.size();
  gVars.push_back({name, (uint8_t)w, undef, input, idx});
  Expr *e = node(O_VAR, w, nullptr, nullptr, nullptr, id);
  e->undef = undef;
  e->sup = internVS({id});
  gVarExprs.push_back(e);
  return e;
}

// ---------- lookup ----------
static Expr *mkXor(Expr *a, Expr *b);
// ---------- division by constants ----------
// the same value without zero extensions and without the (lossless) removal of zero bits
static Expr *strip(Expr *e) {
  for (;;) {
    if (e->op == O_CONCAT && e->a->isConst() && e->a->val == 0) e = e->b;
    else if (e->op == O_EXTRACT && e->val == 0 && ((e->a->kz | maskw(e->w)) & maskw(e->a->w)) == maskw(e->a->w)) e = e->a;
    else return e;
  }
}
static Expr *resize(Expr *e, unsigned w) { return e->w >= w ? mkExtract(e, 0, w) : mkZext(e, w); }
static uint64_t ubound(Expr *e) {
  uint64_t u = ~e->kz & maskw(e->w);
  Expr *s = strip(e);
  if (s->op == O_UREM && s->b->isConst() && s->b->val) u = std::min(u, s->b->val - 1);
  if (s->op == O_UDIV && s->b->isConst() && s->b->val) u = std::min(u, (~s->a->kz & maskw(s->w)) / s->b->val);
  return u;
}
// t * k + (y % k), where t is y / k or (y / k) % b
static Expr *addDivRem(Expr *a, Expr *b) {
  unsigned w = a->w;
  for (int i = 0; i < 2; i++, std::swap(a, b)) {
    Expr *r = strip(b), *p = strip(a);
    if (r->op != O_UREM || !r->b->isConst() || p->op != O_MUL || !p->b->isConst() || p->b->val != r->b->val || p->w < w) continue;
    Expr *y = r->a, *t = strip(p->a); uint64_t k = r->b->val;
    Expr *q = strip(mkBin(O_UDIV, y, r->b));
    if (t == q) return resize(y, w);
    if (t->op == O_UREM && t->b->isConst() && strip(t->a) == q) {
      unsigned __int128 c = (unsigned __int128)k * t->b->val;
      if (c > ubound(y)) return resize(y, w);
      return resize(mkBin(O_UREM, y, mkConst((uint64_t)c, y->w)), w);
    }
  }
  return nullptr;
}

Expr *mkLookup(Expr *L, const std::vector<uint64_t> &tab0, unsigned w) {
  size_t N = tab0.size();
  assert(N == (1u << L->w));
  size_t n = std::min<uint64_t>(ubound(L), N - 1) + 1;      // entries beyond n are never used
  std::vector<uint64_t> tab(tab0.begin(), tab0.begin() + n);
  bool same = true;
  for (size_t i = 1; i < n; i++) if (tab[i] != tab[0]) { same = false; break; }
  if (same) return mkConst(tab[0], w);
  // every output bit constant, a copy of an input bit or its negation -> structural form
  {
    int src[64]; bool ok = true;
    uint64_t orv = 0, andv = ~0ull, neg = 0;
    for (auto x : tab) { orv |= x; andv &= x; }
    for (unsigned j = 0; j < w && ok; j++) {
      if (!((orv >> j) & 1)) { src[j] = -1; continue; }
      if ((andv >> j) & 1) { src[j] = -2; continue; }
      ok = false;
      uint64_t t0 = (tab[0] >> j) & 1;
      for (unsigned i = 0; i < L->w; i++) {
        if ((1ull << i) >= n || ((tab[1ull << i] >> j) & 1) == t0) continue;     // not sensitive to input bit i at 0
        bool eq = true;
        for (size_t k = 0; k < n; k++) if ((((tab[k] >> j) & 1) ^ t0) != ((k >> i) & 1)) { eq = false; break; }
        if (eq) { src[j] = i; ok = true; if (t0) neg |= 1ull << j; }
        break;
      }
    }
    if (ok) {
      // build pieces from the top
      Expr *r = nullptr;
      int j = (int)w - 1;
      while (j >= 0) {
        int k = j;
        Expr *p;
        if (src[j] < 0) {
          uint64_t v = 0;
          while (k >= 0 && src[k] < 0) { v = (v << 1) | (src[k] == -2); k--; }
          p = mkConst(v, j - k);
        } else {
          while (k - 1 >= 0 && src[k - 1] >= 0 && src[k - 1] == src[k] - 1) k--;
          unsigned len = j - k + 1;
          p = mkExtract(L, src[k], len);
          k--;
        }
        r = r ? mkConcat(r, p) : p;
        j = k;
      }
      return neg ? mkXor(r, mkConst(neg, w)) : r;
    }
  }
  tab.resize(N, tab[n - 1]); n = N;
  // an affine table over a sum distributes: T[a ^ b] = T[a] ^ T[b] ^ T[0]
  if (L->op == O_XOR && w > 1) {
    bool aff = true;
    for (size_t i = 1; i < n && aff; i++) { size_t lo = i & (0 - i); if (lo != i && (tab[i] ^ tab[0]) != ((tab[lo] ^ tab[0]) ^ (tab[i ^ lo] ^ tab[0]))) aff = false; }
    if (aff) {
      std::vector<Expr *> ts; std::vector<Expr *> st{L};
      while (!st.empty()) { Expr *x = st.back(); st.pop_back(); if (x->op == O_XOR) { st.push_back(x->a); st.push_back(x->b); } else ts.push_back(x); }
      std::vector<uint64_t> lin(tab); for (auto &x : lin) x ^= tab[0];
      Expr *r = mkConst(tab[0], w);
      for (Expr *t : ts) {
        if (t->isConst()) { r = mkXor(r, mkConst(lin[t->val], w)); continue; }
        Expr *lf = t->leaf; Expr *y;
        if (lf && lf != t) { std::vector<uint64_t> tt; tabulate(t, lf, tt); for (auto &x : tt) x = lin[x]; y = mkLookup(lf, tt, w); }
        else y = mkLookup(t, lin, w);
        r = mkXor(r, y);
      }
      return r;
    }
  }
  // canonical: no constant zero bits at the top
  uint64_t orv = 0; for (auto x : tab) orv |= x & maskw(w);
  unsigned nw = 64 - __builtin_clzll(orv | 1);
  if (nw < w) return mkConcat(mkConst(0, w - nw), mkLookup(L, tab, nw));
  return node(O_LOOKUP, w, L, nullptr, nullptr, 0, internTable(L->w, w, tab));
}

void tabulate(Expr *e, Expr *L, std::vector<uint64_t> &out) {
  size_t n = 1u << L->w;
  out.resize(n);
  if (e == L) { for (size_t i = 0; i < n; i++) out[i] = i; return; }
  switch (e->op) {
    case O_CONST: std::fill(out.begin(), out.end(), e->val); return;
    case O_LOOKUP:
      if (e->a == L) { std::copy(e->tab->v.begin(), e->tab->v.end(), out.begin()); return; }
      break;
    case O_EXTRACT: {
      tabulate(e->a, L, out);
      uint64_t m = maskw(e->w);
      for (auto &x : out) x = (x >> e->val) & m;
      return;
    }
    case O_XOR:
      if (e->b->isConst()) { tabulate(e->a, L, out); for (auto &x : out) x ^= e->b->val; return; }
      break;
    case O_SEXT: {
      tabulate(e->a, L, out);
      uint64_t m = maskw(e->w);
      for (auto &x : out) x = (uint64_t)sx(x, e->a->w) & m;
      return;
    }
    case O_CONCAT: {
      tabulate(e->a, L, out);
      std::vector<uint64_t> lo; tabulate(e->b, L, lo);
      for (size_t i = 0; i < n; i++) out[i] = (out[i] << e->b->w) | lo[i];
      return;
    }
    default: break;
  }
  fprintf(stderr, "tabulate: bad leaf\n"); abort();
}

static inline Expr *commonLeaf(Expr *a, Expr *b) {
  if (a->isConst()) return b->leaf;
  if (b->isConst()) return a->leaf;
  return a->leaf == b->leaf ? a->leaf : nullptr;
}

static Expr *tabBin(Op op, Expr *a, Expr *b, unsigned rw) {
  Expr *L = commonLeaf(a, b);
  if (!L) return nullptr;
  std::vector<uint64_t> ta, tb;
  tabulate(a, L, ta); tabulate(b, L, tb);
  for (size_t i = 0; i < ta.size(); i++) ta[i] = evalOp(op, ta[i], tb[i], a->w);
  return mkLookup(L, ta, rw);
}

// ---------- concat / extract ----------
static void flat(Expr *e, std::vector<Expr *> &out) {
  while (e->op == O_CONCAT) { flat(e->a, out); e = e->b; }
  out.push_back(e);
}

static Expr *rawConcat(Expr *hi, Expr *lo) { return node(O_CONCAT, hi->w + lo->w, hi, lo); }

static void flatXor(Expr *e, std::vector<Expr *> &out);
// Reassemble xors of adjacent slices: hi = xor of slices of S1,S2,..., lo = xor of the slices just below them
// (a slice of a sum may have simplified into a xor of other terms, so the candidates are rebuilt and compared).
static bool takeTerms(std::vector<Expr *> &pool, uint64_t &pk, Expr *cand) {
  std::vector<Expr *> t; flatXor(cand, t);
  uint64_t k = 0; std::vector<Expr *> rest(pool);
  for (Expr *x : t) {
    if (x->isConst()) { k ^= x->val; continue; }
    auto it = std::find(rest.begin(), rest.end(), x);
    if (it == rest.end() && x->leaf) {     // a table may have absorbed a constant
      std::vector<uint64_t> tx, ty; tabulate(x, x->leaf, tx);
      for (it = rest.begin(); it != rest.end(); ++it) {
        if ((*it)->leaf != x->leaf || (*it)->w != x->w) continue;
        tabulate(*it, x->leaf, ty);
        uint64_t d = tx[0] ^ ty[0]; bool same = true;
        for (size_t i = 1; i < tx.size() && same; i++) same = (tx[i] ^ ty[i]) == d;
        if (same) { k ^= d; break; }
      }
    }
    if (it == rest.end()) return false;
    rest.erase(it);
  }
  pool.swap(rest); pk ^= k; return true;
}
static Expr *tryMergeXor(Expr *hi, Expr *lo) {
  if (hi->op != O_XOR && lo->op != O_XOR && hi->op != O_EXTRACT) return nullptr;
  std::vector<Expr *> H, L; flatXor(hi, H); flatXor(lo, L);
  if (H.size() > 40 || L.size() > 60) return nullptr;
  bool sl = false; for (Expr *x : H) if (x->op == O_EXTRACT) sl = true;
  if (!sl) { for (Expr *x : L) if (x->op == O_EXTRACT) sl = true; if (!sl) return nullptr; }
  uint64_t kh = 0, kl = 0;
  for (size_t i = 0; i < H.size();) if (H[i]->isConst()) { kh ^= H[i]->val; H.erase(H.begin() + i); } else i++;
  for (size_t i = 0; i < L.size();) if (L[i]->isConst()) { kl ^= L[i]->val; L.erase(L.begin() + i); } else i++;
  unsigned hw = hi->w, lw = lo->w;
  std::vector<Expr *> M;
  // cheap pass: identical sources
  auto slice = [](Expr *e, Expr *&s, uint64_t &o) { if (e->op == O_EXTRACT) { s = e->a; o = e->val; } else { s = e; o = 0; } };
  for (size_t i = 0; i < H.size();) {
    Expr *hs; uint64_t ho; slice(H[i], hs, ho); bool done = false;
    for (size_t j = 0; j < L.size(); j++) {
      Expr *ls; uint64_t lo_; slice(L[j], ls, lo_);
      if (hs == ls && ho == lo_ + lw && (H[i]->op == O_EXTRACT || L[j]->op == O_EXTRACT)) {
        M.push_back(mkExtract(hs, lo_, hw + lw)); H.erase(H.begin() + i); L.erase(L.begin() + j); done = true; break;
      }
    }
    if (!done) i++;
  }
  for (size_t i = 0; i < H.size();) {
    Expr *h = H[i];
    if (h->op == O_EXTRACT && h->val >= lw && (h->a->op == O_ADD || h->a->op == O_SUB || h->a->op == O_MUL) &&
        takeTerms(L, kl, mkExtract(h->a, h->val - lw, lw))) { M.push_back(mkExtract(h->a, h->val - lw, hw + lw)); H.erase(H.begin() + i); }
    else i++;
  }
  if (!H.empty() || !L.empty()) return nullptr;
  if (M.empty()) return nullptr;
  Expr *r = mkConst((kh << lw) | kl, hw + lw);
  for (Expr *m : M) r = mkBin(O_XOR, r, m);
  return r;
}
// Two adjacent sums over the same set of bytes are one sum of wider table look-ups.
static Expr *tryMergeTables(Expr *hi, Expr *lo) {
  if (hi->op != O_XOR || lo->op != O_XOR) return nullptr;
  std::vector<Expr *> H, L; flatXor(hi, H); flatXor(lo, L);
  if (H.size() > 40 || L.size() > 41) return nullptr;
  uint64_t kh = 0, kl = 0;
  for (size_t i = 0; i < H.size();) if (H[i]->isConst()) { kh ^= H[i]->val; H.erase(H.begin() + i); } else i++;
  for (size_t i = 0; i < L.size();) if (L[i]->isConst()) { kl ^= L[i]->val; L.erase(L.begin() + i); } else i++;
  if (H.size() != L.size() || H.size() < 2) return nullptr;
  for (Expr *x : H) if (!x->leaf) return nullptr;
  for (Expr *x : L) if (!x->leaf) return nullptr;
  auto byLeaf = [](Expr *a, Expr *b) { return a->leaf->id < b->leaf->id; };
  std::sort(H.begin(), H.end(), byLeaf); std::sort(L.begin(), L.end(), byLeaf);
  for (size_t i = 0; i < H.size(); i++) if (H[i]->leaf != L[i]->leaf || (i && H[i]->leaf == H[i - 1]->leaf)) return nullptr;
  unsigned lw = lo->w, w = hi->w + lo->w;
  std::vector<Expr *> M;
  for (size_t i = 0; i < H.size(); i++) {
    std::vector<uint64_t> a, b; tabulate(H[i], H[i]->leaf, a); tabulate(L[i], L[i]->leaf, b);
    for (size_t k = 0; k < a.size(); k++) a[k] = a[k] << lw | b[k];
    Expr *m = mkLookup(H[i]->leaf, a, w);
    if (m->op != O_LOOKUP && m->op != O_EXTRACT && m != m->leaf) return nullptr;
    M.push_back(m);
  }
  Expr *r = mkConst(kh << lw | kl, w);
  for (Expr *m : M) r = mkXor(r, m);
  return r;
}
static Expr *tryMerge(Expr *hi, Expr *lo) {
  if (hi->isConst() && lo->isConst()) return mkConst((hi->val << lo->w) | lo->val, hi->w + lo->w);
  Expr *hs = hi, *ls = lo; uint64_t ho = 0, lo_ = 0;
  if (hi->op == O_EXTRACT) { hs = hi->a; ho = hi->val; }
  if (lo->op == O_EXTRACT) { ls = lo->a; lo_ = lo->val; }
  if (hs == ls && ho == lo_ + lo->w && (hi->op == O_EXTRACT || lo->op == O_EXTRACT))
    return mkExtract(hs, lo_, hi->w + lo->w);
  if (Expr *m = tryMergeXor(hi, lo)) return m;
  if (Expr *m = tryMergeTables(hi, lo)) return m;
  if (hi->op == O_LOOKUP && lo->op == O_LOOKUP && hi->a == lo->a && hi->w + lo->w <= 64) {
    std::vector<uint64_t> t(hi->tab->v);
    for (size_t i = 0; i < t.size(); i++) t[i] = (t[i] << lo->w) | lo->tab->v[i];
    return mkLookup(hi->a, t, hi->w + lo->w);
  }
  if (hi->op == O_ITE && lo->op == O_ITE && hi->a == lo->a) {
    return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  }
  return nullptr;
}

Expr *mkConcat(Expr *hi, Expr *lo) {
  assert(hi->w + lo->w <= 64);
  if (hi->op != O_CONCAT && lo->op != O_CONCAT) {
    Expr *m = tryMerge(hi, lo);
    return m ? m : rawConcat(hi, lo);
  }
  std::vector<Expr *> p, q;
  flat(hi, p); flat(lo, p);
  for (Expr *e : p) {
    Expr *cur = e;
    while (!q.empty()) {
      Expr *m = tryMerge(q.back(), cur);
      if (!m) break;
      q.pop_back();
      if (m->op == O_CONCAT) { // merged into something structured: flatten back
        std::vector<Expr *> r; flat(m, r);
        for (size_t i = 0; i + 1 < r.size(); i++) q.push_back(r[i]);
        cur = r.back();
        break;
      }
      cur = m;
    }
    q.push_back(cur);
  }
  Expr *r = q.back();
  for (int i = (int)q.size() - 2; i >= 0; i--) r = rawConcat(q[i], r);
  return r;
}

static Expr *mkExtract1(Expr *e, unsigned off, unsigned w);
struct ExtKey { Expr *e; uint32_t ow; bool operator==(const ExtKey &o) const { return e == o.e && ow == o.ow; } };
struct ExtHash { size_t operator()(const ExtKey &k) const { return ((size_t)k.e >> 4) * 0x9E3779B97F4A7C15ull + k.ow * 0xC2B2AE3D27D4EB4Full; } };
Expr *mkExtract(Expr *e, unsigned off, unsigned w) {
  assert(off + w <= e->w && w > 0);
  if (w == e->w) return e;
  if (((e->kz >> off) & maskw(w)) == maskw(w)) return mkConst(0, w);
  if (e->op == O_CONST) return mkConst(e->val >> off, w);
  static std::unordered_map<ExtKey, Expr *, ExtHash> memo;
  ExtKey k{e, off << 8 | w};
  auto it = memo.find(k);
  if (it != memo.end()) return it->second;
  Expr *r = mkExtract1(e, off, w);
  if (memo.size() > 4000000) memo.clear();
  memo[k] = r;
  return r;
}
static Expr *mkExtract1(Expr *e, unsigned off, unsigned w) {
  switch (e->op) {
    case O_CONST: return mkConst(e->val >> off, w);
    case O_EXTRACT: return mkExtract(e->a, off + e->val, w);
    case O_CONCAT: {
      unsigned lw = e->b->w;
      if (off >= lw) return mkExtract(e->a, off - lw, w);
      if (off + w <= lw) return mkExtract(e->b, off, w);
      return mkConcat(mkExtract(e->a, 0, off + w - lw), mkExtract(e->b, off, lw - off));
    }
    case O_AND: case O_OR: case O_XOR:
      return mkBin(e->op, mkExtract(e->a, off, w), mkExtract(e->b, off, w));
    case O_LOOKUP: {
      std::vector<uint64_t> t(e->tab->v);
      uint64_t m = maskw(w);
      for (auto &x : t) x = (x >> off) & m;
      return mkLookup(e->a, t, w);
    }
    case O_SEXT: {
      unsigned iw = e->a->w;
      if (off + w <= iw) return mkExtract(e->a, off, w);
      if (off < iw) return mkSext(mkExtract(e->a, off, iw - off), w);
      return mkSext(mkExtract(e->a, iw - 1, 1), w);
    }
    case O_ITE:
      if ((e->b->isConst() || e->c->isConst() || e->b->op == O_CONCAT || e->c->op == O_CONCAT || e->b->op == O_ITE || e->c->op == O_ITE))
        return mkIte(e->a, mkExtract(e->b, off, w), mkExtract(e->c, off, w));
      break;
    case O_ADD: case O_SUB: case O_MUL:
      // canonical: narrowed to the bits that matter
      { unsigned W = (off + w + 7) / 8 * 8;
        if (W < e->w) return mkExtract(mkBin(e->op, mkExtract(e->a, 0, W), mkExtract(e->b, 0, W)), off, w); }
      break;
    default: break;
  }
  return node(O_EXTRACT, w, e, nullptr, nullptr, off);
}

Expr *mkZext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  return mkConcat(mkConst(0, w - a->w), a);
}
Expr *mkSext(Expr *a, unsigned w) {
  if (a->w == w) return a;
  if (a->isConst()) return mkConst((uint64_t)sx(a->val, a->w), w);
  if ((a->kz >> (a->w - 1)) & 1) return mkZext(a, w);
  if (a->op == O_SEXT) return mkSext(a->a, w);
  if (a->op == O_LOOKUP) {
    std::vector<uint64_t> t(a->tab->v);
    for (auto &x : t) x = (uint64_t)sx(x, a->w) & maskw(w);
    return mkLookup(a->a, t, w);
  }
  if (a->op == O_ITE && (a->b->isConst() || a->c->isConst())) return mkIte(a->a, mkSext(a->b, w), mkSext(a->c, w));
  return node(O_SEXT, w, a);
}

// ---------- ite ----------
Expr *mkNot1(Expr *a) { return mkBin(O_XOR, a, mkConst(1, 1)); }

Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  assert(c->w == 1 && a->w == b->w);
  if (c->isConst()) return c->val ? a : b;
  if (a == b) return a;
  if (c->op == O_XOR && c->b->isConst()) return mkIte(c->a, b, a);  // not
  if (a->w == 1) {
    if (a->isConst() && b->isConst()) return a->val ? c : mkNot1(c);
    if (a->isConst()) return a->val ? mkBin(O_OR, c, b) : mkBin(O_AND, mkNot1(c), b);
    if (b->isConst()) return b->val ? mkBin(O_OR, mkNot1(c), a) : mkBin(O_AND, c, a);
  }
  if (a->op == O_ITE && a->a == c) a = a->b;
  if (b->op == O_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  Expr *L = c->leaf;
  if (L && (a->isConst() || a->leaf == L) && (b->isConst() || b->leaf == L)) {
    std::vector<uint64_t> tc, ta, tb;
    tabulate(c, L, tc); tabulate(a, L, ta); tabulate(b, L, tb);
    for (size_t i = 0; i < tc.size(); i++) ta[i] = tc[i] ? ta[i] : tb[i];
    return mkLookup(L, ta, a->w);
  }
  // a choice between constants by a sum of bits is a sum of such choices
  if (a->w > 1 && a->isConst() && b->isConst() && c->op == O_XOR && !c->leaf) {
    std::vector<Expr *> v; std::vector<Expr *> st{c}; bool ok = true;
    while (!st.empty()) { Expr *x = st.back(); st.pop_back(); if (x->op == O_XOR) { st.push_back(x->a); st.push_back(x->b); } else { v.push_back(x); if (!x->leaf && !x->isConst()) ok = false; } }
    if (ok) {
      uint64_t d = a->val ^ b->val; Expr *r = mkConst(b->val, a->w);
      for (Expr *x : v) r = mkXor(r, mkIte(x, mkConst(d, a->w), mkConst(0, a->w)));
      return r;
    }
  }
  // factor common concat parts
  if (a->op == O_CONCAT && b->op == O_CONCAT && a->a->w == b->a->w && (a->a == b->a || a->b == b->b))
    return mkConcat(mkIte(c, a->a, b->a), mkIte(c, a->b, b->b));
  if (a->w > 1 && (a->kz & b->kz)) {
    // strip common leading zeros
    uint64_t z = a->kz & b->kz; unsigned k = 0;
    while (k < a->w && ((z >> (a->w - 1 - k)) & 1)) k++;
    if (k && k < a->w)
      return mkConcat(mkConst(0, k), mkIte(c, mkExtract(a, 0, a->w - k), mkExtract(b, 0, a->w - k)));
  }
  return node(O_ITE, a->w, c, a, b);
}

// ---------- binary ----------

// apply a bitwise op piecewise when operands have concat structure
static Expr *splitBitwise(Op op, Expr *a, Expr *b) {
  auto splittable = [](Expr *e) { return e->op == O_CONCAT || e->isConst(); };
  if (a->op != O_CONCAT && b->op != O_CONCAT) return nullptr;
  bool go = false;
  if (splittable(a) && splittable(b)) go = true;
  else {
    Expr *cc = a->op == O_CONCAT ? a : b;
    std::vector<Expr *> p; flat(cc, p);
    if (p.size() <= 8) for (Expr *x : p) if (x->isConst()) go = true;
  }
  if (!go) return nullptr;
  // union of boundaries (bit offsets)
  std::vector<unsigned> bd; bd.push_back(0);
  auto add = [&](Expr *e) { if (e->op != O_CONCAT) return; std::vector<Expr *> p; flat(e, p); unsigned o = 0; for (int i = (int)p.size() - 1; i >= 0; i--) { o += p[i]->w; bd.push_back(o); } };
  add(a); add(b);
  bd.push_back(a->w);
  std::sort(bd.begin(), bd.end()); bd.erase(std::unique(bd.begin(), bd.end()), bd.end());
  if (bd.size() > 18) return nullptr;
  Expr *r = nullptr;
  for (size_t i = 0; i + 1 < bd.size(); i++) {
    unsigned o = bd[i], w = bd[i + 1] - o;
    Expr *p = mkBin(op, mkExtract(a, o, w), mkExtract(b, o, w));
    r = r ? mkConcat(p, r) : p;
  }
  return r;
}

static void flatXor(Expr *e, std::vector<Expr *> &out) {
  std::vector<Expr *> st{e};
  while (!st.empty()) { Expr *x = st.back(); st.pop_back(); if (x->op == O_XOR) { st.push_back(x->a); st.push_back(x->b); } else out.push_back(x); }
}

// canonical form: xor distributes over concat
static bool xorSplitUseful(const std::vector<Expr *> &terms) {
  for (Expr *t : terms) if (t->op == O_CONCAT) return true;
  return false;
}
static Expr *xorSplit(const std::vector<Expr *> &terms, unsigned w) {
  std::vector<unsigned> bd{0, w};
  for (Expr *t : terms) if (t->op == O_CONCAT) { std::vector<Expr *> p; flat(t, p); unsigned o = 0; for (int i = (int)p.size() - 1; i >= 0; i--) { o += p[i]->w; bd.push_back(o); } }
  std::sort(bd.begin(), bd.end()); bd.erase(std::unique(bd.begin(), bd.end()), bd.end());
  Expr *r = nullptr;
  for (size_t i = 0; i + 1 < bd.size(); i++) {
    unsigned o = bd[i], n = bd[i + 1] - o; Expr *p = nullptr;
    for (Expr *t : terms) { Expr *x = mkExtract(t, o, n); p = p ? mkBin(O_XOR, p, x) : x; }
    r = r ? mkConcat(p, r) : p;
  }
  return r;
}

static Expr *mkXor(Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a->op != O_XOR && b->op != O_XOR) {
    if (a == b) return mkConst(0, w);
    if (a->isConst() && a->val == 0) return b;
    if (b->isConst() && b->val == 0) return a;
    if (Expr *t = splitBitwise(O_XOR, a, b)) return t;
    if (xorSplitUseful({a, b})) return xorSplit({a, b}, w);
    if (a->isConst()) std::swap(a, b);
    if (!b->isConst() || a->op == O_LOOKUP) if (Expr *t = tabBin(O_XOR, a, b, w)) return t;
    if (b->isConst() || !((a->op == O_LOOKUP && a->tab->v[0]) || (b->op == O_LOOKUP && b->tab->v[0]))) {
      if (!b->isConst() && a->id > b->id) std::swap(a, b);
      return node(O_XOR, w, a, b);
    }
  }
  // n-ary: collect, cancel, sort; constant last
  std::vector<Expr *> v; flatXor(a, v); flatXor(b, v);
  uint64_t k = 0;
  std::vector<Expr *> u;
  std::sort(v.begin(), v.end(), [](Expr *x, Expr *y) { return x->id < y->id; });
  for (size_t i = 0; i < v.size(); i++) {
    if (v[i]->isConst()) { k ^= v[i]->val; continue; }
    if (i + 1 < v.size() && v[i + 1] == v[i]) { i++; continue; }
    u.push_back(v[i]);
  }
  // tables in a sum map 0 to 0
  if (u.size() > 1) for (size_t i = 0; i < u.size(); i++) if (u[i]->op == O_LOOKUP && u[i]->tab->v[0]) {
    std::vector<uint64_t> t(u[i]->tab->v); uint64_t t0 = t[0]; k ^= t0; for (auto &x : t) x ^= t0;
    Expr *r = mkLookup(u[i]->a, t, w);
    u.erase(u.begin() + i);
    std::vector<Expr *> rr; flatXor(r, rr);
    for (Expr *x : rr) { if (x->isConst()) { k ^= x->val; continue; }
      auto it = std::find(u.begin(), u.end(), x); if (it != u.end()) u.erase(it); else u.push_back(x); }
    i = (size_t)-1; if (u.size() < 2) break;
  }
  // combine terms with the same leaf
  bool again = true;
  while (again && u.size() > 1) {
    again = false;
    for (size_t i = 0; i < u.size() && !again; i++) if (u[i]->leaf && u[i]->op != O_XOR)
      for (size_t j = i + 1; j < u.size(); j++) if (u[j]->leaf == u[i]->leaf) {
        std::vector<uint64_t> ta, tb; Expr *L = u[i]->leaf;
        tabulate(u[i], L, ta); tabulate(u[j], L, tb);
        for (size_t x = 0; x < ta.size(); x++) ta[x] ^= tb[x];
        Expr *r = mkLookup(L, ta, w);
        u.erase(u.begin() + j); u.erase(u.begin() + i);
        if (r->isConst()) k ^= r->val;
        else { std::vector<Expr *> rr; flatXor(r, rr);
          for (Expr *x : rr) { if (x->isConst()) { k ^= x->val; continue; }
            auto it = std::find(u.begin(), u.end(), x); if (it != u.end()) u.erase(it); else u.push_back(x); } }
        again = true; break;
      }
  }
  std::sort(u.begin(), u.end(), [](Expr *x, Expr *y) { return x->id < y->id; });
  if (u.empty()) return mkConst(k, w);
  if (u.size() > 1 && xorSplitUseful(u)) { if (k) u.push_back(mkConst(k, w)); return xorSplit(u, w); }
  Expr *r = u[0];
  for (size_t i = 1; i < u.size(); i++) r = node(O_XOR, w, r, u[i]);
  if (k) {
    if (u.size() == 1) return mkXor(r, mkConst(k, w));
    r = node(O_XOR, w, r, mkConst(k, w));
  } else if (u.size() == 1) return r;
  return r;
}

static unsigned runs(uint64_t m, unsigned w) {
  unsigned r = 0; bool prev = false;
  for (unsigned i = 0; i < w; i++) { bool b = (m >> i) & 1; if (b != prev || i == 0) r++; prev = b; }
  return r;
}

static Expr *maskToConcat(Expr *a, uint64_t m) {
  unsigned w = a->w; Expr *r = nullptr;
  unsigned i = 0;
  while (i < w) {
    bool b = (m >> i) & 1; unsigned j = i;
    while (j < w && (((m >> j) & 1) != 0) == b) j++;
    Expr *p = b ? mkExtract(a, i, j - i) : mkConst(0, j - i);
    r = r ? mkConcat(p, r) : p;
    i = j;
  }
  return r;
}

Expr *mkBin(Op op, Expr *a, Expr *b) {
  assert(a->w == b->w);
  unsigned w = a->w; uint64_t m = maskw(w);
  if (a->isConst() && b->isConst()) return mkConst(evalOp(op, a->val, b->val, w), w);
  if (w == 1) { if (op == O_ADD || op == O_SUB) op = O_XOR; else if (op == O_MUL) op = O_AND; }
  switch (op) {
    case O_XOR: return mkXor(a, b);
    case O_AND:
      if (a == b) return a;
      if (a->isConst()) std::swap(a, b);
      if (b->isConst()) {
        uint64_t eff = b->val & ~a->kz & m;
        if (eff == 0) return mkConst(0, w);
        if (eff == (~a->kz & m)) return a;
        if (runs(b->val, w) <= 5) return maskToConcat(a, b->val);
      }
      if ((~a->kz & ~b->kz & m) == 0) return mkConst(0, w);
      if (w == 1) {
        if (a->op == O_XOR && a->b->isConst() && a->a == b) return mkConst(0, 1);
        if (b->op == O_XOR && b->b->isConst() && b->a == a) return mkConst(0, 1);
        // absorption: x & (x & y)
        if (a->op == O_AND && (a->a == b || a->b == b)) return a;
        if (b->op == O_AND && (b->a == a || b->b == a)) return b;
      }
      break;
    case O_OR:
      if (a == b) return a;
      if (a->isConst()) std::swap(a, b);
      if (b->isConst()) { if (b->val == 0) return a; if (b->val == m) return b; }
      if (w == 1) {
        if (a->op == O_XOR && a->b->isConst() && a->a == b) return mkConst(1, 1);
        if (b->op == O_XOR && b->b->isConst() && b->a == a) return mkConst(1, 1);
      }
      break;
    case O_ADD:
      if (a->isConst()) std::swap(a, b);
      if (b->isConst()) {
        if (b->val == 0) return a;
        if (a->op == O_ADD && a->b->isConst()) return mkBin(O_ADD, a->a, mkConst(a->b->val + b->val, w));
        if (a->op == O_ITE && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
      } else {
        if (a->op == O_ADD && a->b->isConst()) return mkBin(O_ADD, mkBin(O_ADD, a->a, b), a->b);
        if (b->op == O_ADD && b->b->isConst()) return mkBin(O_ADD, mkBin(O_ADD, a, b->a), b->b);
        // (x - y) + y -> x
        if (a->op == O_SUB && a->b == b) return a->a;
        if (b->op == O_SUB && b->b == a) return b->a;
        if (Expr *r = addDivRem(a, b)) return r;
      }
      break;
    case O_SUB:
      if (a == b) return mkConst(0, w);
      if (b->isConst()) return mkBin(O_ADD, a, mkConst(0 - b->val, w));
      if (b->op == O_SUB && a == b->a) return b->b;
      {
        Expr *x = a, *y = b; uint64_t cx = 0, cy = 0;
        if (x->op == O_ADD && x->b->isConst()) { cx = x->b->val; x = x->a; }
        if (y->op == O_ADD && y->b->isConst()) { cy = y->b->val; y = y->a; }
        if (x == y) return mkConst(cx - cy, w);
        if (cx || cy) return mkBin(O_ADD, mkBin(O_SUB, x, y), mkConst(cx - cy, w));
        if (x->op == O_ADD && x->a == y) return x->b;
        if (x->op == O_ADD && x->b == y) return x->a;
      }
      break;
    case O_MUL:
      if (a->isConst()) std::swap(a, b);
      if (b->isConst()) {
        if (b->val == 0) return b;
        if (b->val == 1) return a;
        if ((b->val & (b->val - 1)) == 0) return mkBin(O_SHL, a, mkConst(__builtin_ctzll(b->val), w));
      }
      break;
    case O_UDIV:
      if (b->isConst() && b->val) {
        if (b->val == 1) return a;
        if ((b->val & (b->val - 1)) == 0) return mkBin(O_LSHR, a, mkConst(__builtin_ctzll(b->val), w));
        if (ubound(a) < b->val) return mkConst(0, w);
        Expr *s = strip(a);
        if (s->op == O_UDIV && s->b->isConst() && s->b->val) {
          unsigned __int128 c = (unsigned __int128)s->b->val * b->val;
          if (c > ubound(s->a)) return mkConst(0, w);
          return resize(mkBin(O_UDIV, s->a, mkConst((uint64_t)c, s->w)), w);
        }
      }
      break;
    case O_UREM:
      if (b->isConst() && b->val) {
        if (b->val == 1) return mkConst(0, w);
        if ((b->val & (b->val - 1)) == 0) return mkBin(O_AND, a, mkConst(b->val - 1, w));
        if (ubound(a) < b->val) return a;
      }
      break;
    case O_SDIV: case O_SREM:
      if (b->isConst() && sx(b->val, w) > 0 && ((a->kz >> (w - 1)) & 1)) return mkBin(op == O_SDIV ? O_UDIV : O_UREM, a, b);
      break;
    case O_SHL:
      if (b->isConst()) {
        if (b->val == 0) return a;
        if (b->val >= w) return mkConst(0, w);
        return mkConcat(mkExtract(a, 0, w - b->val), mkConst(0, b->val));
      }
      break;
    case O_LSHR:
      if (b->isConst()) {
        if (b->val == 0) return a;
        if (b->val >= w) return mkConst(0, w);
        return mkConcat(mkConst(0, b->val), mkExtract(a, b->val, w - b->val));
      }
      break;
    case O_ASHR:
      if (b->isConst()) {
        if (b->val == 0) return a;
        uint64_t s = b->val >= w ? w - 1 : b->val;
        return mkSext(mkExtract(a, s, w - s), w);
      }
      break;
    default: break;
  }
  if (op == O_AND || op == O_OR) if (Expr *t = splitBitwise(op, a, b)) return t;
  if ((op == O_OR || op == O_ADD) && (~a->kz & ~b->kz & m) == 0) {
    if (op == O_ADD) return mkBin(O_OR, a, b);
    // disjoint OR of structures: express as XOR (canonical)
    return mkXor(a, b);
  }
  if (op == O_ADD) {
    // narrow additions with common leading zeros
    uint64_t z = a->kz & b->kz; unsigned k = 0;
    while (k < w && ((z >> (w - 1 - k)) & 1)) k++;
    if (k > 1 && k < w) {
      unsigned nw = w - k + 1;
      return mkConcat(mkConst(0, k - 1), mkBin(O_ADD, mkExtract(a, 0, nw), mkExtract(b, 0, nw)));
    }
  }
  if (Expr *t = tabBin(op, a, b, w)) return t;
  if (op == O_UDIV || op == O_UREM) {
    uint64_t z = a->kz & b->kz; unsigned k = 0;
    while (k < w && ((z >> (w - 1 - k)) & 1)) k++;
    if (k && k < w) return mkConcat(mkConst(0, k), mkBin(op, mkExtract(a, 0, w - k), mkExtract(b, 0, w - k)));
  }
  if (op == O_ADD || op == O_MUL || op == O_AND || op == O_OR) {
    if (!b->isConst() && a->id > b->id) std::swap(a, b);
  }
  return node(op, w, a, b);
}

Expr *mkCmp(Op op, Expr *a, Expr *b) {
  assert(a->w == b->w);
  unsigned w = a->w; uint64_t m = maskw(w);
  if (a->isConst() && b->isConst()) return mkConst(evalOp(op, a->val, b->val, w), 1);
  if (a == b) return mkConst(op == O_EQ || op == O_ULE || op == O_SLE, 1);
  // canonicalise: ULE a b -> !(ULT b a); SLE likewise
  if (op == O_ULE) return mkNot1(mkCmp(O_ULT, b, a));
  if (op == O_SLE) return mkNot1(mkCmp(O_SLT, b, a));
  if (op == O_SLT) {
    bool az = (a->kz >> (w - 1)) & 1, bz = (b->kz >> (w - 1)) & 1;
    if (az && bz) return mkCmp(O_ULT, a, b);
    if (b->isConst() && b->val == 0) return mkExtract(a, w - 1, 1);
    if (a->isConst() && sx(a->val, w) == -1) return mkNot1(mkExtract(b, w - 1, 1));
    if (a->isConst() && az && !bz) {}
  }
  if (op == O_EQ) {
    if (a->isConst()) std::swap(a, b);
    if (b->isConst() && (b->val & a->kz)) return mkConst(0, 1);
    if (w == 1) {
      if (b->isConst()) return b->val ? a : mkNot1(a);
      return mkNot1(mkXor(a, b));
    }
    if (Expr *t = tabBin(op, a, b, 1)) return t;
    if (b->isConst()) {
      if (a->op == O_XOR && a->b->isConst()) return mkCmp(O_EQ, a->a, mkConst(a->b->val ^ b->val, w));
      if (a->op == O_ADD && a->b->isConst()) return mkCmp(O_EQ, a->a, mkConst(b->val - a->b->val, w));
      if (a->op == O_SUB && b->val == 0) return mkCmp(O_EQ, a->a, a->b);
      if (a->op == O_XOR && b->val == 0 && a->a->op != O_XOR) return mkCmp(O_EQ, a->a, a->b);
      if (a->op == O_ITE) {
        if (a->b->isConst() && a->c->isConst()) {
          bool x = a->b->val == b->val, y = a->c->val == b->val;
          if (x && y) return mkConst(1, 1);
          if (!x && !y) return mkConst(0, 1);
          return x ? a->a : mkNot1(a->a);
        }
        if (a->b->isConst()) { Expr *r = mkCmp(O_EQ, a->c, b); return a->b->val == b->val ? mkBin(O_OR, a->a, r) : mkBin(O_AND, mkNot1(a->a), r); }
        if (a->c->isConst()) { Expr *r = mkCmp(O_EQ, a->b, b); return a->c->val == b->val ? mkBin(O_OR, mkNot1(a->a), r) : mkBin(O_AND, a->a, r); }
      }
      if (a->op == O_SEXT) {
        if ((uint64_t)sx(b->val & maskw(a->a->w), a->a->w) % 1 == 0 && (((uint64_t)sx(b->val & maskw(a->a->w), a->a->w)) & m) == b->val)
          return mkCmp(O_EQ, a->a, mkConst(b->val, a->a->w));
        return mkConst(0, 1);
      }
    }
    if (a->op == O_CONCAT && (b->isConst() || b->op == O_CONCAT)) {
      unsigned lw = a->b->w;
      if (b->op == O_CONCAT && b->b->w < lw) lw = b->b->w;
      Expr *l = mkCmp(O_EQ, mkExtract(a, 0, lw), mkExtract(b, 0, lw));
      if (l->isConst() && !l->val) return l;
      Expr *h = mkCmp(O_EQ, mkExtract(a, lw, w - lw), mkExtract(b, lw, w - lw));
      return mkBin(O_AND, l, h);
    }
    if (b->op == O_CONCAT && a->op != O_CONCAT) {
      std::vector<Expr *> p; flat(b, p); bool c = false; for (auto x : p) if (x->isConst()) c = true;
      if (c) {
        unsigned lw = b->b->w;
        Expr *l = mkCmp(O_EQ, mkExtract(a, 0, lw), mkExtract(b, 0, lw));
        if (l->isConst() && !l->val) return l;
        return mkBin(O_AND, l, mkCmp(O_EQ, mkExtract(a, lw, w - lw), mkExtract(b, lw, w - lw)));
      }
    }
    // x+c1 == y+c2
    if (a->op == O_ADD && b->op == O_ADD && a->b->isConst() && b->b->isConst())
      return mkCmp(O_EQ, a->a, mkBin(O_ADD, b->a, mkConst(b->b->val - a->b->val, w)));
    if (a->op == O_ADD && (a->a == b)) return mkCmp(O_EQ, a->b, mkConst(0, w));
    if (a->op == O_ADD && (a->b == b)) return mkCmp(O_EQ, a->a, mkConst(0, w));
    if (b->op == O_ADD && (b->a == a)) return mkCmp(O_EQ, b->b, mkConst(0, w));
    if (b->op == O_ADD && (b->b == a)) return mkCmp(O_EQ, b->a, mkConst(0, w));
    for (int i = 0; i < 2 && !b->isConst(); i++, std::swap(a, b)) {      // x == x % c
      Expr *r = strip(b); if (r->op == O_UREM && r->b->isConst() && r->b->val && strip(r->a) == strip(a)) return mkCmp(O_ULT, r->a, r->b);
    }
    if (b->isConst() && b->val == 0) { Expr *r = strip(a); if (r->op == O_UDIV && r->b->isConst() && r->b->val) return mkCmp(O_ULT, r->a, r->b); }
    if (!b->isConst() && a->id > b->id) std::swap(a, b);
    return node(O_EQ, 1, a, b);
  }
  if (op == O_ULT) {
    uint64_t maxa = ~a->kz & m, maxb = ~b->kz & m;
    if (b->isConst()) {
      if (b->val == 0) return mkConst(0, 1);
      if (maxa < b->val) return mkConst(1, 1);
      if (b->val == 1) return mkCmp(O_EQ, a, mkConst(0, w));
    }
    if (a->isConst()) {
      if (maxb <= a->val) return mkConst(0, 1);
      if (a->val == 0) return mkNot1(mkCmp(O_EQ, b, mkConst(0, w)));
    }
  }
  if (Expr *t = tabBin(op, a, b, 1)) return t;
  if (b->isConst() && a->op == O_ITE && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkCmp(op, a->b, b), mkCmp(op, a->c, b));
  if (a->isConst() && b->op == O_ITE && b->b->isConst() && b->c->isConst()) return mkIte(b->a, mkCmp(op, a, b->b), mkCmp(op, a, b->c));
  if (op == O_ULT) {
    uint64_t z = a->kz & b->kz; unsigned k = 0;
    while (k < w && ((z >> (w - 1 - k)) & 1)) k++;
    if (k && k < w) return mkCmp(O_ULT, mkExtract(a, 0, w - k), mkExtract(b, 0, w - k));
  }
  return node(op, 1, a, b);
}

// ---------- evaluation ----------
static uint64_t gEpoch = 1;
void evalNewEpoch() { gEpoch++; }
uint64_t evalExprNE(Expr *e, const Model &mo) {
  if (e->op == O_CONST) return e->val;
  if (e->evalEpoch == gEpoch) return e->evalVal;
  uint64_t r;
  switch (e->op) {
    case O_VAR: r = e->val < mo.v.size() ? mo.v[e->val] : 0; r &= maskw(e->w); break;
    case O_CONCAT: r = (evalExprNE(e->a, mo) << e->b->w) | evalExprNE(e->b, mo); break;
    case O_EXTRACT: r = (evalExprNE(e->a, mo) >> e->val) & maskw(e->w); break;
    case O_SEXT: r = (uint64_t)sx(evalExprNE(e->a, mo), e->a->w) & maskw(e->w); break;
    case O_ITE: r = evalExprNE(e->a, mo) ? evalExprNE(e->b, mo) : evalExprNE(e->c, mo); break;
    case O_LOOKUP: r = e->tab->v[evalExprNE(e->a, mo)]; break;
    default: r = evalOp(e->op, evalExprNE(e->a, mo), evalExprNE(e->b, mo), e->a->w); break;
  }
  e->evalEpoch = gEpoch; e->evalVal = r;
  return r;
}
uint64_t evalExpr(Expr *e, const Model &m) { gEpoch++; return evalExprNE(e, m); }

std::string exprStr(Expr *e, int depth) {
  static const char *names[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","concat","extract","sext","ite","lookup"};
  char buf[64];
  if (e->op == O_CONST) { snprintf(buf, sizeof buf, "%llx:%d", (unsigned long long)e->val, e->w); return buf; }
  if (e->op == O_VAR) return gVars[e->val].name + "[" + std::to_string(gVars[e->val].idx) + "]";
  if (depth == 0) return "...";
  std::string s = std::string("(") + names[e->op];
  if (e->op == O_EXTRACT) { snprintf(buf, sizeof buf, "@%d+%d", (int)e->val, e->w); s += buf; }
  if (e->op == O_LOOKUP && e->w == 1) {
    s += "{"; int k = 0; for (size_t i = 0; i < e->tab->v.size(); i++) if (e->tab->v[i]) { if (k++ > 6) { s += ".."; break; } snprintf(buf, sizeof buf, "%zx,", i); s += buf; } s += "}";
  }
  if (e->a) s += " " + exprStr(e->a, depth - 1);
  if (e->b) s += " " + exprStr(e->b, depth - 1);
  if (e->c) s += " " + exprStr(e->c, depth - 1);
  return s + ")";
}
}

namespace kpx {
// Self-test: random expression DAGs are built through the simplifying constructors while every node is also
// evaluated directly on random assignments; and the extract/concat/ite forms are re-checked through tabulate.
uint64_t exprSelfTest(uint64_t iters, uint64_t seed) {
  uint64_t s = seed * 0x9E3779B97F4A7C15ull + 1, bad = 0, checked = 0;
  auto rnd = [&]() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; };
  const int K = 6;
  for (uint64_t it = 0; it < iters; it++) {
    struct N { Expr *e; uint64_t v[K]; };
    std::vector<N> pool;
    std::vector<Model> ms(K);
    for (int i = 0; i < 5; i++) {
      static const unsigned ws[] = {8, 8, 8, 32, 16, 64, 1};
      unsigned w = ws[rnd() % 7];
      Expr *v = mkVar("st", w, false); N n; n.e = v;
      for (int k = 0; k < K; k++) { uint64_t x = (rnd() % 4 == 0 ? (rnd() & 1 ? 0 : ~0ull) : rnd()) & maskw(w); ms[k].v.resize(gVars.size(), 0); ms[k].v[v->val] = x; n.v[k] = x; }
      pool.push_back(n);
    }
    for (int step = 0; step < 40; step++) {
      N &A = pool[rnd() % pool.size()]; N n; unsigned c = rnd() % 16;
      auto other = [&](unsigned w) -> N {           // operand of width w
        N o;
        if (rnd() % 3 == 0) { uint64_t x = rnd() % 3 ? rnd() % 9 : rnd(); x &= maskw(w); o.e = mkConst(x, w); for (int k = 0; k < K; k++) o.v[k] = x; return o; }
        for (int t = 0; t < 8; t++) { N &q = pool[rnd() % pool.size()]; if (q.e->w == w) return q; }
        N &q = pool[rnd() % pool.size()];
        if (q.e->w > w) { unsigned off = rnd() % (q.e->w - w + 1); o.e = mkExtract(q.e, off, w); for (int k = 0; k < K; k++) o.v[k] = (q.v[k] >> off) & maskw(w); }
        else if (rnd() & 1) { o.e = mkZext(q.e, w); for (int k = 0; k < K; k++) o.v[k] = q.v[k]; }
        else { o.e = mkSext(q.e, w); for (int k = 0; k < K; k++) o.v[k] = (uint64_t)sx(q.v[k], q.e->w) & maskw(w); }
        return o;
      };
      unsigned w = A.e->w;
      if (c < 8) {
        static const Op ops[] = {O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_XOR, O_SHL, O_LSHR, O_ASHR};
        Op op = ops[rnd() % 14]; N B = other(w);
        if (op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM) { bool z = false; for (int k = 0; k < K; k++) if (!B.v[k]) z = true; if (z) continue; }
        n.e = mkBin(op, A.e, B.e); for (int k = 0; k < K; k++) n.v[k] = evalOp(op, A.v[k], B.v[k], w);
      } else if (c < 10) {
        static const Op ops[] = {O_EQ, O_ULT, O_ULE, O_SLT, O_SLE};
        Op op = ops[rnd() % 5]; N B = other(w);
        n.e = mkCmp(op, A.e, B.e); for (int k = 0; k < K; k++) n.v[k] = evalOp(op, A.v[k], B.v[k], w);
      } else if (c < 12) {
        unsigned nw = 1 + rnd() % w, off = rnd() % (w - nw + 1);
        n.e = mkExtract(A.e, off, nw); for (int k = 0; k < K; k++) n.v[k] = (A.v[k] >> off) & maskw(nw);
      } else if (c < 14) {
        N &B = pool[rnd() % pool.size()]; if (w + B.e->w > 64) continue;
        n.e = mkConcat(A.e, B.e); for (int k = 0; k < K; k++) n.v[k] = (A.v[k] << B.e->w) | B.v[k];
      } else if (c < 15) {
        N C = other(1), B = other(w);
        n.e = mkIte(C.e, A.e, B.e); for (int k = 0; k < K; k++) n.v[k] = C.v[k] ? A.v[k] : B.v[k];
      } else {
        if (w > 8) continue;
        std::vector<uint64_t> t(1u << w); unsigned ow = 1 + rnd() % 12; uint64_t mode = rnd() % 4;
        for (size_t i = 0; i < t.size(); i++) t[i] = (mode == 0 ? rnd() : mode == 1 ? (i ^ 5) >> 1 : mode == 2 ? i < 3 : ~i) & maskw(ow);
        n.e = mkLookup(A.e, t, ow); for (int k = 0; k < K; k++) n.v[k] = t[A.v[k]];
      }
      for (int k = 0; k < K; k++) {
        checked++;
        uint64_t got = evalExpr(n.e, ms[k]);
        if (got != n.v[k] || (got & n.e->kz)) { bad++; if (bad < 5) fprintf(stderr, "SELFTEST MISMATCH w=%d got %llx want %llx kz %llx : %s\n", n.e->w, (unsigned long long)got, (unsigned long long)n.v[k], (unsigned long long)n.e->kz, exprStr(n.e, 4).c_str()); }
      }
      pool.push_back(n);
    }
  }
  for (uint64_t it = 0; it < iters / 10; it++) {        // digits of a number and back
    static const unsigned ws[] = {8, 16, 32, 64}; static const uint64_t bs[] = {10, 60, 7, 16, 24};
    unsigned w = ws[rnd() % 4], dn = 1 + rnd() % 20; uint64_t base = bs[rnd() % 5]; if (w == 8 && base > 10) base = 10;
    Expr *v = mkVar("st", w, false), *c = mkConst(base, w); Model m; m.v.resize(gVars.size(), 0); uint64_t x = rnd() >> (rnd() % 64) & maskw(w); m.v[v->val] = x;
    std::vector<Expr *> d; Expr *r = v; for (unsigned i = 0; i < dn; i++) { d.push_back(mkBin(O_ADD, mkExtract(mkBin(O_UREM, r, c), 0, 8), mkConst(48, 8))); r = mkBin(O_UDIV, r, c); }
    Expr *t = mkConst(0, w); uint64_t want = 0, y = x, p = 1; bool whole = false;
    for (unsigned i = 0; i < dn; i++) { if (!whole) want += (y % base) * p; y /= base; if (!y) whole = true; p *= base; }
    for (unsigned i = dn; i-- > 0;) t = mkBin(O_ADD, mkBin(O_MUL, t, c), mkBin(O_SUB, w > 8 ? mkSext(d[i], w) : d[i], mkConst(48, w)));
    checked++; uint64_t got = evalExpr(t, m);
    if (got != (want & maskw(w))) { bad++; if (bad < 5) fprintf(stderr, "SELFTEST digits w=%u n=%u base=%llu x=%llx got %llx want %llx: %s\n", w, dn, (unsigned long long)base, (unsigned long long)x, (unsigned long long)got, (unsigned long long)want, exprStr(t, 4).c_str()); }
    checked++; if (evalExpr(mkCmp(O_EQ, t, v), m) != (uint64_t)((want & maskw(w)) == x)) { bad++; fprintf(stderr, "SELFTEST digits eq\n"); }
  }
  printf("selftest: %llu node evaluations, %llu mismatches, %llu expressions\n", (unsigned long long)checked, (unsigned long long)bad, (unsigned long long)gExprCount);
  return bad;
}
}
