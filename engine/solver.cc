#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <unistd.h>
#include <atomic>
#include <pthread.h>
#include <map>

namespace kpx {
SolverStats gStats;
bool gCrossCheck = false;
unsigned gZ3TimeoutMs = 60000;
double gDeadline = 1e18;
double nowSec() { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

bool PathCond::isMulti(uint32_t v) const { return std::binary_search(multi.begin(), multi.end(), v); }
const Dom *PathCond::getDom(uint32_t v) const {
  auto it = std::lower_bound(dom.begin(), dom.end(), v, [](const std::pair<uint32_t, Dom> &p, uint32_t x) { return p.first < x; });
  if (it != dom.end() && it->first == v) return &it->second;
  return nullptr;
}
void PathCond::setModel(uint32_t var, uint64_t val) {
  if (!model) model = std::make_shared<Model>();
  if (model.use_count() > 1) model = std::make_shared<Model>(*model);
  if (model->v.size() <= var) model->v.resize(var + 1, 0);
  model->v[var] = val;
}

static std::unordered_map<uint32_t, Dom> truthCache;
bool inDomainTable(Expr *cond, Dom &d) {
  if (cond->sup->v.size() != 1) return false;
  uint32_t v = cond->sup->v[0];
  unsigned w = gVars[v].w;
  if (w > 8) return false;
  auto it = truthCache.find(cond->id);
  if (it != truthCache.end()) { d = it->second; return true; }
  Dom r = {0, 0, 0, 0};
  if (cond->op == O_LOOKUP && cond->a->op == O_VAR) {
    for (size_t i = 0; i < cond->tab->v.size(); i++) if (cond->tab->v[i]) r[i >> 6] |= 1ull << (i & 63);
  } else {
    static Model m;
    if (m.v.size() < gVars.size()) m.v.resize(gVars.size(), 0);
    for (unsigned i = 0; i < (1u << w); i++) {
      m.v[v] = i;
      if (evalExpr(cond, m)) r[i >> 6] |= 1ull << (i & 63);
    }
    m.v[v] = 0;
  }
  truthCache[cond->id] = r;
  d = r;
  return true;
}

static Dom fullDom(unsigned w) {
  Dom d = {0, 0, 0, 0};
  for (unsigned i = 0; i < (1u << w); i++) d[i >> 6] |= 1ull << (i & 63);
  return d;
}
static Dom domOf(const PathCond &pc, uint32_t v) {
  if (const Dom *d = pc.getDom(v)) return *d;
  return fullDom(gVars[v].w);
}
static bool domEmpty(const Dom &d) { return !(d[0] | d[1] | d[2] | d[3]); }
static unsigned domPick(const Dom &d) {
  for (int i = 0; i < 4; i++) if (d[i]) return i * 64 + __builtin_ctzll(d[i]);
  return 0;
}

void addConstraint(PathCond &pc, Expr *cond) {
  if (cond->isConst()) { return; }
  if (cond->op == O_AND && cond->w == 1) { addConstraint(pc, cond->a); addConstraint(pc, cond->b); return; }
  if (cond->op == O_XOR && cond->b->isConst() && cond->a->op == O_OR) {
    addConstraint(pc, mkNot1(cond->a->a)); addConstraint(pc, mkNot1(cond->a->b)); return;
  }
  for (auto *e : pc.cons) if (e == cond) return;
  Dom d;
  if (inDomainTable(cond, d)) {
    uint32_t v = cond->sup->v[0];
    auto it = std::lower_bound(pc.dom.begin(), pc.dom.end(), v, [](const std::pair<uint32_t, Dom> &p, uint32_t x) { return p.first < x; });
    if (it != pc.dom.end() && it->first == v) { for (int i = 0; i < 4; i++) it->second[i] &= d[i]; }
    else { Dom f = fullDom(gVars[v].w); for (int i = 0; i < 4; i++) f[i] &= d[i]; pc.dom.insert(it, {v, f}); }
    // single-variable conjuncts live in the domain; keep one merged conjunct per variable for Z3 (added lazily)
    return;
  }
  pc.cons.push_back(cond);
  for (uint32_t v : cond->sup->v) {
    auto it = std::lower_bound(pc.multi.begin(), pc.multi.end(), v);
    if (it == pc.multi.end() || *it != v) pc.multi.insert(it, v);
  }
}

// ---------------- Z3 ----------------
static Z3_context ctx;
static int gZ3Err = 0; static bool gWatchOn = false;     // while a query runs, an error means it was interrupted
static Z3_solver fast;
static std::vector<Z3_ast> memo;
static Z3_sort bvSorts[65];

void solverInit() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg);   // not _rc: temporaries built while translating must stay alive
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) {
    if (gWatchOn) { gZ3Err = 1; return; }
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(3);
  });
  fast = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, fast);
  for (int i = 1; i <= 64; i++) { bvSorts[i] = Z3_mk_bv_sort(ctx, i); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, bvSorts[i])); }
}

static Z3_ast num(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(ctx, v, bvSorts[w]); }

static Z3_ast toZ3(Expr *e);
static Z3_ast bit(Z3_ast x, unsigned i) { return Z3_mk_extract(ctx, i, i, x); }

static Z3_ast tableTree(Z3_ast leaf, const uint64_t *t, unsigned bits, unsigned w, std::map<std::vector<uint64_t>, Z3_ast> &m) {
  size_t n = 1u << bits;
  bool same = true;
  for (size_t i = 1; i < n; i++) if (t[i] != t[0]) { same = false; break; }
  if (same) return num(t[0], w);
  std::vector<uint64_t> key(t, t + n);
  auto it = m.find(key);
  if (it != m.end()) return it->second;
  Z3_ast hi = tableTree(leaf, t + n / 2, bits - 1, w, m), lo = tableTree(leaf, t, bits - 1, w, m);
  Z3_ast c = Z3_mk_eq(ctx, bit(leaf, bits - 1), num(1, 1));
  Z3_ast r = Z3_mk_ite(ctx, c, hi, lo);
  Z3_inc_ref(ctx, r);
  m[key] = r;
  return r;
}
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(ctx, b, num(1, 1), num(0, 1)); }

static Z3_ast toZ3(Expr *e) {
  if (memo.size() <= e->id) memo.resize(e->id + 1024, nullptr);
  if (memo[e->id]) return memo[e->id];
  Z3_ast r;
  switch (e->op) {
    case O_CONST: r = num(e->val, e->w); break;
    case O_VAR: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->val), bvSorts[e->w]); break;
    case O_ADD: r = Z3_mk_bvadd(ctx, toZ3(e->a), toZ3(e->b)); break;
    case O_SUB: r = Z3_mk_bvsub(ctx, toZ3(e->a), toZ3(e->b)); break;
    case O_MUL: r = Z3_mk_bvmul(ctx, toZ3(e->a), toZ3(e->b)); break;
    case O_UDIV: r = Z3_mk_bvudiv(ctx, toZ3(e->a), toZ3(e->b)); break;
    case O_SDIV: r = Z3_mk_bvsdiv(ctx, toZ3(e->a), toZ3(e->b)); break;
    case O_UREM: r = Z3_mk_bvurem(ctx, toZ3(e->a), toZ3(e->b)); break;
    case O_SREM: r = Z3_mk_bvsrem(ctx, toZ3(e->a), toZ3(e->b)); break;
    case O_AND: r = Z3_mk_bvand(ctx, toZ3(e->a), toZ3(e->b)); break;
    case O_OR: r = Z3_mk_bvor(ctx, toZ3(e->a), toZ3(e->b)); break;
    case O_XOR: r = Z3_mk_bvxor(ctx, toZ3(e->a), toZ3(e->b)); break;
    case O_SHL: r = Z3_mk_bvshl(ctx, toZ3(e->a), toZ3(e->b)); break;
    case O_LSHR: r = Z3_mk_bvlshr(ctx, toZ3(e->a), toZ3(e->b)); break;
    case O_ASHR: r = Z3_mk_bvashr(ctx, toZ3(e->a), toZ3(e->b)); break;
    case O_EQ: r = b2bv(Z3_mk_eq(ctx, toZ3(e->a), toZ3(e->b))); break;
    case O_ULT: r = b2bv(Z3_mk_bvult(ctx, toZ3(e->a), toZ3(e->b))); break;
    case O_ULE: r = b2bv(Z3_mk_bvule(ctx, toZ3(e->a), toZ3(e->b))); break;
    case O_SLT: r = b2bv(Z3_mk_bvslt(ctx, toZ3(e->a), toZ3(e->b))); break;
    case O_SLE: r = b2bv(Z3_mk_bvsle(ctx, toZ3(e->a), toZ3(e->b))); break;
    case O_CONCAT: r = Z3_mk_concat(ctx, toZ3(e->a), toZ3(e->b)); break;
    case O_EXTRACT: r = Z3_mk_extract(ctx, e->val + e->w - 1, e->val, toZ3(e->a)); break;
    case O_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, toZ3(e->a)); break;
    case O_ITE: r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, toZ3(e->a), num(1, 1)), toZ3(e->b), toZ3(e->c)); break;
    case O_LOOKUP: {
      std::map<std::vector<uint64_t>, Z3_ast> m;
      r = tableTree(toZ3(e->a), e->tab->v.data(), e->a->w, e->w, m);
      break;
    }
    default: abort();
  }
  Z3_inc_ref(ctx, r);
  if (memo.size() <= e->id) memo.resize(e->id + 1024, nullptr);
  memo[e->id] = r;
  return r;
}

static Expr *domExpr(uint32_t v, const Dom &d) {
  std::vector<uint64_t> t(1u << gVars[v].w);
  for (size_t i = 0; i < t.size(); i++) t[i] = (d[i >> 6] >> (i & 63)) & 1;
  return mkLookup(varById(v), t, 1);
}

struct CacheEnt { bool sat; std::vector<std::pair<uint32_t, uint64_t>> asg; };
struct VecHash { size_t operator()(const std::vector<uint32_t> &v) const {
  uint64_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 31; } return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> qcache;

// A query may exceed its time limit inside the translation or preprocessing, where z3's own limit does not apply.
static std::atomic<double> gWatch{0};
static void *watchdog(void *) {
  for (;;) { usleep(200000); double d = gWatch.load(); if (d > 0 && nowSec() > d) { Z3_interrupt(ctx); } }
  return nullptr;
}
static size_t dagSize(const std::vector<Expr *> &cs, size_t lim) {
  std::unordered_set<uint32_t> seen; std::vector<Expr *> st(cs);
  while (!st.empty() && seen.size() < lim) {
    Expr *e = st.back(); st.pop_back(); if (!e || !seen.insert(e->id).second) continue;
    st.push_back(e->a); st.push_back(e->b); st.push_back(e->c);
  }
  return seen.size();
}
static const size_t kDagLimit = 25000;
static Feas z3Check(const std::vector<Expr *> &cs, const std::vector<uint32_t> &vars,
                    std::vector<std::pair<uint32_t, uint64_t>> &asg, bool crosscheck = false) {
  double t0 = nowSec();
  if (t0 > gDeadline) return Feas::Unknown;
  static const char *printq = getenv("KPX_PRINTQ");
  if (printq) for (Expr *e : cs) fprintf(stderr, "[q] %s\n", exprStr(e, atoi(printq)).substr(0, 3000).c_str());
  double left = gDeadline - t0;
  unsigned tmo = gZ3TimeoutMs;
  if (left * 1000 < tmo) tmo = (unsigned)(left * 1000) + 1;
  if (dagSize(cs, kDagLimit) >= kDagLimit) { gStats.z3_queries++; gStats.z3_unknown++; return Feas::Unknown; }
  static bool dog = false; if (!dog) { dog = true; pthread_t t; pthread_create(&t, nullptr, watchdog, nullptr); pthread_detach(t); }
  Z3_lbool r = Z3_L_UNDEF;
  Z3_solver s = nullptr;
  Z3_model mdl = nullptr;
  for (int attempt = 0; attempt < 2 && r == Z3_L_UNDEF; attempt++) {
    if (attempt == 0) s = fast;
    else { s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, s); }
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), attempt == 0 ? std::min(tmo, 3000u) : tmo);
    Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
    if (attempt == 0) Z3_solver_push(ctx, s);
    for (Expr *e : cs) toZ3(e);
    gZ3Err = 0; gWatchOn = true; gWatch = nowSec() + (attempt == 0 ? std::min(tmo, 3000u) : tmo) / 1000.0 + 1;
    for (Expr *e : cs) if (!gZ3Err) Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, toZ3(e), num(1, 1)));
    r = gZ3Err ? Z3_L_UNDEF : Z3_solver_check(ctx, s);
    gWatch = 0; gWatchOn = false; if (gZ3Err) r = Z3_L_UNDEF;
    if (r == Z3_L_TRUE) {
      mdl = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, mdl);
      for (uint32_t v : vars) {
        Z3_ast va = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)v), bvSorts[gVars[v].w]);
        Z3_inc_ref(ctx, va);
        Z3_ast val = nullptr;
        uint64_t n = 0;
        if (Z3_model_eval(ctx, mdl, va, true, &val)) Z3_get_numeral_uint64(ctx, val, &n);
        asg.push_back({v, n});
        Z3_dec_ref(ctx, va);
      }
      Z3_model_dec_ref(ctx, mdl);
    }
    if (attempt == 0) Z3_solver_pop(ctx, s, 1); else Z3_solver_dec_ref(ctx, s);
  }
  double dt = nowSec() - t0;
  gStats.z3_time += dt; if (dt > gStats.z3_max) gStats.z3_max = dt;
  if (!crosscheck) {
    gStats.z3_queries++;
    if (r == Z3_L_TRUE) gStats.z3_sat++; else if (r == Z3_L_FALSE) gStats.z3_unsat++; else gStats.z3_unknown++;
  }
  static const char *slow = getenv("KPX_SLOW");
  if (slow && dt > atof(slow)) {
    fprintf(stderr, "[slow query %.2fs r=%d n=%zu]\n", dt, r, cs.size());
    for (Expr *e : cs) fprintf(stderr, "   %s\n", exprStr(e, 5).substr(0, 600).c_str());
  }
  return r == Z3_L_TRUE ? Feas::Feasible : r == Z3_L_FALSE ? Feas::Infeasible : Feas::Unknown;
}

static void crossCheckDom(const PathCond &pc, uint32_t v, Expr *cond, bool sat) {
  std::vector<Expr *> cs{cond, domExpr(v, domOf(pc, v))};
  std::vector<std::pair<uint32_t, uint64_t>> asg;
  Feas f = z3Check(cs, {v}, asg, true);
  gStats.crosschecked++;
  if ((f == Feas::Feasible) != sat && f != Feas::Unknown) {
    gStats.crosscheck_bad++;
    fprintf(stderr, "CROSSCHECK MISMATCH %s\n", exprStr(cond).c_str());
  }
}

Feas feasible(const PathCond &pc, Expr *cond, std::shared_ptr<Model> *out) {
  if (cond->isConst()) {
    gStats.decided_struct++;
    if (cond->val && out) *out = pc.model;
    return cond->val ? Feas::Feasible : Feas::Infeasible;
  }
  // byte-domain decision
  Dom t;
  if (inDomainTable(cond, t)) {
    uint32_t v = cond->sup->v[0];
    Dom d = domOf(pc, v);
    for (int i = 0; i < 4; i++) t[i] &= d[i];
    if (domEmpty(t)) {
      gStats.decided_dom++;
      if (gCrossCheck) crossCheckDom(pc, v, cond, false);
      return Feas::Infeasible;
    }
    if (!pc.isMulti(v)) {
      gStats.decided_dom++;
      if (gCrossCheck) crossCheckDom(pc, v, cond, true);
      if (out) {
        auto m = std::make_shared<Model>(pc.model ? *pc.model : Model());
        if (m->v.size() <= v) m->v.resize(v + 1, 0);
        m->v[v] = domPick(t);
        *out = m;
      }
      return Feas::Feasible;
    }
  }
  // every variable has one value left
  bool fixed = true;
  for (uint32_t v : cond->sup->v) { const Dom *d = gVars[v].w <= 8 ? pc.getDom(v) : nullptr; if (!d || __builtin_popcountll((*d)[0]) + __builtin_popcountll((*d)[1]) + __builtin_popcountll((*d)[2]) + __builtin_popcountll((*d)[3]) != 1) { fixed = false; break; } }
  if (fixed) {
    Model m; m.v.assign(gVars.size(), 0); for (uint32_t v : cond->sup->v) m.v[v] = domPick(*pc.getDom(v));
    gStats.decided_dom++;
    if (!evalExpr(cond, m)) return Feas::Infeasible;
    if (out) *out = pc.model;
    return Feas::Feasible;
  }
  // slice
  std::vector<Expr *> cs{cond};
  std::vector<uint32_t> vars(cond->sup->v);
  std::unordered_set<uint32_t> vs(vars.begin(), vars.end());
  std::vector<char> used(pc.cons.size(), 0);
  bool grew = true;
  while (grew) {
    grew = false;
    for (size_t i = 0; i < pc.cons.size(); i++) if (!used[i]) {
      bool touch = false;
      for (uint32_t v : pc.cons[i]->sup->v) if (vs.count(v)) { touch = true; break; }
      if (!touch) continue;
      used[i] = 1; cs.push_back(pc.cons[i]); grew = true;
      for (uint32_t v : pc.cons[i]->sup->v) if (vs.insert(v).second) vars.push_back(v);
    }
  }
  for (uint32_t v : vars) if (const Dom *d = pc.getDom(v)) cs.push_back(domExpr(v, *d));
  std::vector<uint32_t> key; key.reserve(cs.size());
  for (Expr *e : cs) key.push_back(e->id);
  std::sort(key.begin() + 1, key.end());
  std::vector<std::pair<uint32_t, uint64_t>> asg;
  auto it = qcache.find(key);
  bool sat;
  if (it != qcache.end()) { gStats.cache_hits++; sat = it->second.sat; asg = it->second.asg; }
  else {
    // a witness found by evaluation needs no solver call; only the negative answer does
    bool guessed = false;
    static uint64_t rng = 0x9E3779B97F4A7C15ull;
    auto rnd = [&]() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
    auto guess = [&](int tries, double limit) {
      double g0 = nowSec();
      for (int tryNo = 0; tryNo < tries && !guessed; tryNo++) {
        if (tryNo > 12 && nowSec() - g0 > limit) return;
        Model m; m.v.assign(gVars.size(), 0);
        for (uint32_t v : vars) {
          uint64_t x = pc.model && v < pc.model->v.size() ? pc.model->v[v] : 0;
          bool inCond = std::binary_search(cond->sup->v.begin(), cond->sup->v.end(), v);
          if (inCond ? (tryNo < 6 || (rnd() & 1)) : tryNo % 12 >= 10) { x = rnd() & maskw(gVars[v].w); if (tryNo < 2 && gVars[v].w >= 8) x = tryNo ? maskw(gVars[v].w) : 0; }
          m.v[v] = x;
        }
        evalNewEpoch(); guessed = true;
        for (Expr *e : cs) if (!evalExprNE(e, m)) { guessed = false; break; }
        if (guessed) for (uint32_t v : vars) asg.push_back({v, m.v[v]});
      }
    };
    guess(12, 0.1);
    if (guessed) { gStats.guessed++; sat = true; }
    else {
    Feas f = z3Check(cs, vars, asg);
    if (f == Feas::Unknown) { guess(2000, 3.0); if (!guessed) return f; gStats.guessed++; f = Feas::Feasible; }
    sat = f == Feas::Feasible;
    }
    if (qcache.size() > 2000000) qcache.clear();
    qcache[key] = {sat, asg};
  }
  if (!sat) return Feas::Infeasible;
  if (out) {
    auto m = std::make_shared<Model>(pc.model ? *pc.model : Model());
    for (auto &p : asg) { if (m->v.size() <= p.first) m->v.resize(p.first + 1, 0); m->v[p.first] = p.second; }
    *out = m;
  }
  return Feas::Feasible;
}
}
