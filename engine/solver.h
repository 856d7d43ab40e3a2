// Path conditions and the SMT back end (Z3).
#pragma once
#include "expr.h"
#include <z3.h>
#include <ctime>
#include <chrono>

namespace sx {
struct Dom {
  u64 b[4];
  bool has(unsigned i) const { return (b[i >> 6] >> (i & 63)) & 1; }
  void set(unsigned i) { b[i >> 6] |= 1ull << (i & 63); }
  int count() const {
    return __builtin_popcountll(b[0]) + __builtin_popcountll(b[1]) + __builtin_popcountll(b[2]) + __builtin_popcountll(b[3]);
  }
  int first() const {
    for (int i = 0; i < 4; i++)
      if (b[i]) return i * 64 + __builtin_ctzll(b[i]);
    return -1;
  }
  bool operator<(const Dom &o) const { return memcmp(b, o.b, sizeof b) < 0; }
  bool full() const { return (b[0] & b[1] & b[2] & b[3]) == ~0ull; }
};
struct DomI { // interned
  Dom d;
  int id, n;
};

struct PathCond {
  std::vector<DomI *> dom;      // by var, null = full
  std::vector<uint8_t> linked;  // by var
  std::vector<Expr *> multi;    // constraints over several vars
  std::vector<uint8_t> as;      // a satisfying assignment when asOk
  bool asOk = true;
};

struct SolverStats {
  u64 queries = 0, sat = 0, unsat = 0, unknown = 0, domdec = 0, cachehit = 0, us = 0;
};

class Solver {
public:
  Ctx &C;
  SolverStats st;
  Z3_context z;
  Z3_solver s;
  std::map<Dom, DomI *> domidx;
  std::vector<Z3_ast> ast;
  std::vector<Z3_ast> varast;
  std::unordered_map<std::string, int> qcache;
  Solver(Ctx &c, unsigned timeout_ms) : C(c) {
    Z3_config cfg = Z3_mk_config();
    z = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    s = Z3_mk_simple_solver(z);
    Z3_solver_inc_ref(z, s);
    Z3_params p = Z3_mk_params(z);
    Z3_params_inc_ref(z, p);
    Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), timeout_ms);
    Z3_solver_set_params(z, s, p);
  }
  DomI *intern(const Dom &d) {
    auto it = domidx.find(d);
    if (it != domidx.end()) return it->second;
    DomI *x = new DomI{d, (int)domidx.size(), d.count()};
    domidx[d] = x;
    return x;
  }
  static Dom fullDom() { return Dom{{~0ull, ~0ull, ~0ull, ~0ull}}; }
  Dom domOf(const PathCond &p, int v) const {
    if (v < (int)p.dom.size() && p.dom[v]) return p.dom[v]->d;
    return fullDom();
  }
  bool isLinked(const PathCond &p, int v) const { return v < (int)p.linked.size() && p.linked[v]; }

  // values a single-variable condition can take under the domain
  void split(const PathCond &p, Expr *e, Dom &t, Dom &f) {
    const u64 *tb = C.table(e);
    Dom d = domOf(p, e->sv);
    memset(&t, 0, sizeof t);
    memset(&f, 0, sizeof f);
    for (int k = 0; k < 4; k++) {
      u64 m = d.b[k];
      while (m) {
        int i = __builtin_ctzll(m);
        m &= m - 1;
        if (tb[k * 64 + i] & 1) t.b[k] |= 1ull << i;
        else f.b[k] |= 1ull << i;
      }
    }
  }
  // 1: must be true, 0: must be false, 2: both possible, 3: unknown (treat as both)
  int decide(PathCond &p, Expr *e) {
    if (e->sv >= 0 && !isLinked(p, e->sv)) {
      Dom t, f;
      split(p, e, t, f);
      st.domdec++;
      bool T = t.count(), F = f.count();
      return T && F ? 2 : T ? 1 : 0;
    }
    bool canT = false, canF = false;
    if (ensureAs(p)) {
      if (C.eval(e, p.as) & 1) canT = true;
      else canF = true;
    }
    int unk = 0;
    if (!canT) {
      int r = check(p, e, false, nullptr, true);
      if (r < 0) unk = 1, canT = true;
      else canT = r;
    }
    if (!canF) {
      int r = check(p, e, true, nullptr, true);
      if (r < 0) unk = 1, canF = true;
      else canF = r;
    }
    (void)unk;
    return canT && canF ? 2 : canT ? 1 : 0;
  }
  bool ensureAs(PathCond &p) {
    if (p.asOk) return true;
    // recompute: component by component, by finite domains where those are small
    {
      bool ok = true;
      std::unordered_set<Expr *> done;
      std::vector<uint8_t> as = p.as;
      for (Expr *c : p.multi) {
        if (done.count(c)) continue;
        std::vector<Expr *> cs;
        std::vector<int> vv;
        component(p, c, cs, vv);
        for (Expr *x : cs) done.insert(x);
        bool hold = true;
        for (Expr *x : cs) hold = hold && (C.eval(x, p.as) & 1);
        for (int v : vv) hold = hold && v < (int)p.as.size() && domOf(p, v).has(p.as[v]);
        if (hold) continue;
        int r = enumerate(p, cs, vv, [&](const std::vector<uint8_t> &m) {
          if (as.size() < m.size()) as.resize(m.size(), 0);
          for (int v : vv) as[v] = m[v];
          return true;
        });
        if (r != 1) {
          ok = false;
          break;
        }
      }
      if (ok) {
        p.as = as;
        p.asOk = true;
        return true;
      }
    }
    std::vector<uint8_t> m;
    int r = checkAll(p, nullptr, false, &m);
    if (r == 1) {
      p.as = m;
      p.asOk = true;
      return true;
    }
    return false;
  }
  void add(PathCond &p, Expr *e) {
    if (e->op == O_CONST) return;
    if (e->op == O_AND && e->w == 1) {
      add(p, e->a);
      add(p, e->b);
      return;
    }
    if (e->sv >= 0) {
      Dom t, f;
      split(p, e, t, f);
      setDom(p, e->sv, t);
      return;
    }
    p.multi.push_back(e);
    for (int v : e->vars->v) {
      if ((int)p.linked.size() <= v) p.linked.resize(v + 1, 0);
      p.linked[v] = 1;
    }
    if (p.asOk && !(C.eval(e, p.as) & 1)) p.asOk = false;
  }
  void setDom(PathCond &p, int v, const Dom &t) {
    if ((int)p.dom.size() <= v) p.dom.resize(v + 1, nullptr);
    p.dom[v] = intern(t);
    if ((int)p.as.size() <= v) p.as.resize(v + 1, 0);
    if (p.dom[v]->n && !t.has(p.as[v])) {
      p.as[v] = (uint8_t)t.first();
      if (isLinked(p, v)) p.asOk = false;
    }
  }
  // SAT check of (component of p relevant to e) & (neg? !e : e). 1 sat, 0 unsat, -1 unknown
  int check(PathCond &p, Expr *e, bool neg, std::vector<uint8_t> *model, bool branch = false) {
    std::vector<Expr *> cs;
    std::vector<int> vv;
    component(p, e, cs, vv);
    if (branch && !model) {
      int r = small(p, cs, vv, e, neg);
      if (r >= 0) return r;
    }
    return run(p, cs, vv, e, neg, model);
  }
  // the constraints that share variables (transitively) with e
  void component(PathCond &p, Expr *e, std::vector<Expr *> &cs, std::vector<int> &vv) {
    std::unordered_set<int> vs(e->vars->v.begin(), e->vars->v.end());
    std::vector<bool> used(p.multi.size(), false);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < p.multi.size(); i++) {
        if (used[i]) continue;
        bool hit = false;
        for (int v : p.multi[i]->vars->v)
          if (vs.count(v)) { hit = true; break; }
        if (hit) {
          used[i] = true;
          ch = true;
          cs.push_back(p.multi[i]);
          for (int v : p.multi[i]->vars->v) vs.insert(v);
        }
      }
    }
    vv.assign(vs.begin(), vs.end());
    std::sort(vv.begin(), vv.end());
  }
  // branch feasibility over at most 3 bytes with few values each: by their finite domains
  // 1 found, 0 none, -1 too large; each(as) returns true to stop at an assignment
  template <class F> int enumerate(PathCond &p, const std::vector<Expr *> &cs, const std::vector<int> &vv, F each) {
    if (vv.size() > 24) return -1;
    u64 prod = 1;
    std::vector<std::vector<uint8_t>> vals(vv.size());
    for (size_t i = 0; i < vv.size(); i++) {
      Dom d = domOf(p, vv[i]);
      for (int k = 0; k < 256; k++)
        if (d.has(k)) vals[i].push_back((uint8_t)k);
      prod *= vals[i].size();
      if (prod > 600) return -1;
    }
    std::vector<uint8_t> as = p.as;
    if (as.size() < C.varinfo.size()) as.resize(C.varinfo.size(), 0);
    st.domdec++;
    for (u64 n = 0; n < prod; n++) {
      u64 r = n;
      for (size_t i = 0; i < vv.size(); i++) {
        as[vv[i]] = vals[i][r % vals[i].size()];
        r /= vals[i].size();
      }
      bool ok = true;
      for (size_t i = 0; ok && i < cs.size(); i++) ok = C.eval(cs[i], as) & 1;
      if (ok && each(as)) return 1;
    }
    return 0;
  }
  int small(PathCond &p, const std::vector<Expr *> &cs, const std::vector<int> &vv, Expr *e, bool neg) {
    return enumerate(p, cs, vv, [&](const std::vector<uint8_t> &as) { return (C.eval(e, as) & 1) != neg; });
  }
  int checkAll(PathCond &p, Expr *e, bool neg, std::vector<uint8_t> *model) {
    std::unordered_set<int> vs;
    for (Expr *m : p.multi)
      for (int v : m->vars->v) vs.insert(v);
    if (e)
      for (int v : e->vars->v) vs.insert(v);
    for (size_t v = 0; v < p.dom.size(); v++)
      if (p.dom[v]) vs.insert((int)v);
    std::vector<int> vv(vs.begin(), vs.end());
    std::sort(vv.begin(), vv.end());
    return run(p, p.multi, vv, e, neg, model);
  }
  int run(PathCond &p, const std::vector<Expr *> &cs, const std::vector<int> &vv, Expr *e, bool neg, std::vector<uint8_t> *model) {
    std::string key;
    if (!model) {
      std::vector<uint32_t> k;
      for (Expr *c : cs) k.push_back(c->id);
      std::sort(k.begin(), k.end());
      k.push_back(0xffffffff);
      for (int v : vv) {
        k.push_back(v);
        k.push_back(v < (int)p.dom.size() && p.dom[v] ? p.dom[v]->id + 1 : 0);
      }
      k.push_back(e ? e->id : 0xffffffff);
      k.push_back(neg);
      key.assign((char *)k.data(), k.size() * 4);
      auto it = qcache.find(key);
      if (it != qcache.end()) {
        st.cachehit++;
        return it->second;
      }
    }
    auto t0 = std::chrono::steady_clock::now();
    Z3_solver_reset(z, s);
    for (int v : vv)
      if (v < (int)p.dom.size() && p.dom[v] && !p.dom[v]->d.full()) Z3_solver_assert(z, s, domAst(v, p.dom[v]->d));
    for (Expr *c : cs) Z3_solver_assert(z, s, boolAst(c));
    if (e) Z3_solver_assert(z, s, neg ? Z3_mk_not(z, boolAst(e)) : boolAst(e));
    Z3_lbool r = Z3_solver_check(z, s);
    st.queries++;
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (res == 1) st.sat++;
    else if (res == 0) st.unsat++;
    else st.unknown++;
    if (res == 1 && model) {
      Z3_model m = Z3_solver_get_model(z, s);
      Z3_model_inc_ref(z, m);
      *model = p.as;
      model->resize(std::max(model->size(), C.varinfo.size()), 0);
      for (int v : vv) {
        Z3_ast out;
        if (Z3_model_eval(z, m, varAst(v), true, &out)) {
          uint64_t x = 0;
          Z3_get_numeral_uint64(z, out, &x);
          (*model)[v] = (uint8_t)x;
        }
      }
      Z3_model_dec_ref(z, m);
    }
    st.us += std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
    if (!model) {
      if (qcache.size() > 2000000) qcache.clear();
      qcache[key] = res;
    }
    return res;
  }
  // all feasible values of e; returns false if more than cap or unknown
  bool values(PathCond &p, Expr *e, std::vector<u64> &out, size_t cap) {
    out.clear();
    if (e->sv >= 0 && !isLinked(p, e->sv)) {
      const u64 *t = C.table(e);
      Dom d = domOf(p, e->sv);
      std::unordered_set<u64> seen;
      for (int i = 0; i < 256; i++)
        if (d.has(i) && seen.insert(t[i]).second) out.push_back(t[i]);
      st.domdec++;
      return out.size() <= cap;
    }
    {
      std::vector<Expr *> cs;
      std::vector<int> vv;
      component(p, e, cs, vv);
      std::unordered_set<u64> seen;
      int r = enumerate(p, cs, vv, [&](const std::vector<uint8_t> &as) {
        u64 v = C.eval(e, as);
        if (seen.insert(v).second) out.push_back(v);
        return out.size() > cap;
      });
      if (r == 0) return true;
      if (r == 1) return false;
      out.clear();
    }
    PathCond q = p;
    while (out.size() <= cap) {
      std::vector<uint8_t> m;
      int r = checkAll(q, nullptr, false, &m);
      if (r < 0) return false;
      if (r == 0) return true;
      u64 v = C.eval(e, m);
      out.push_back(v);
      Value ne = C.bin(O_XOR, C.cmp(O_EQ, Value(e), Value(v), e->w), Value(1), 1);
      if (!ne.e) {
        if (!ne.c) return true;
        continue;
      }
      q.multi.push_back(ne.e);
    }
    return false;
  }
  Z3_ast varAst(int v) {
    if ((int)varast.size() <= v) varast.resize(v + 1, nullptr);
    if (!varast[v]) {
      Z3_sort so = Z3_mk_bv_sort(z, 8);
      std::string n = "v" + std::to_string(v);
      varast[v] = Z3_mk_const(z, Z3_mk_string_symbol(z, n.c_str()), so);
      Z3_inc_ref(z, varast[v]);
    }
    return varast[v];
  }
  Z3_ast num(u64 v, unsigned w) { return Z3_mk_unsigned_int64(z, v & maskw(w), Z3_mk_bv_sort(z, w)); }
  Z3_ast domAst(int v, const Dom &d) {
    std::vector<Z3_ast> ors;
    int i = 0;
    while (i < 256) {
      if (!d.has(i)) { i++; continue; }
      int j = i;
      while (j + 1 < 256 && d.has(j + 1)) j++;
      if (i == j) ors.push_back(Z3_mk_eq(z, varAst(v), num(i, 8)));
      else {
        Z3_ast a[2] = {Z3_mk_bvule(z, num(i, 8), varAst(v)), Z3_mk_bvule(z, varAst(v), num(j, 8))};
        ors.push_back(Z3_mk_and(z, 2, a));
      }
      i = j + 1;
    }
    if (ors.empty()) return Z3_mk_false(z);
    return ors.size() == 1 ? ors[0] : Z3_mk_or(z, (unsigned)ors.size(), ors.data());
  }
  Z3_ast boolAst(Expr *e) { return Z3_mk_eq(z, toAst(e), num(1, 1)); }
  Z3_ast toAst(Expr *e) {
    if (ast.size() <= e->id) ast.resize(e->id + 1024, nullptr);
    if (ast[e->id]) return ast[e->id];
    Z3_ast r = nullptr;
    auto B = [&](Z3_ast c) { return Z3_mk_ite(z, c, num(1, 1), num(0, 1)); };
    switch (e->op) {
    case O_CONST: r = num(e->cval, e->w); break;
    case O_VAR: r = varAst((int)e->cval); break;
    case O_ADD: r = Z3_mk_bvadd(z, toAst(e->a), toAst(e->b)); break;
    case O_SUB: r = Z3_mk_bvsub(z, toAst(e->a), toAst(e->b)); break;
    case O_MUL: r = Z3_mk_bvmul(z, toAst(e->a), toAst(e->b)); break;
    case O_UDIV: r = Z3_mk_bvudiv(z, toAst(e->a), toAst(e->b)); break;
    case O_SDIV: r = Z3_mk_bvsdiv(z, toAst(e->a), toAst(e->b)); break;
    case O_UREM: r = Z3_mk_bvurem(z, toAst(e->a), toAst(e->b)); break;
    case O_SREM: r = Z3_mk_bvsrem(z, toAst(e->a), toAst(e->b)); break;
    case O_AND: r = Z3_mk_bvand(z, toAst(e->a), toAst(e->b)); break;
    case O_OR: r = Z3_mk_bvor(z, toAst(e->a), toAst(e->b)); break;
    case O_XOR: r = Z3_mk_bvxor(z, toAst(e->a), toAst(e->b)); break;
    case O_SHL: r = Z3_mk_bvshl(z, toAst(e->a), toAst(e->b)); break;
    case O_LSHR: r = Z3_mk_bvlshr(z, toAst(e->a), toAst(e->b)); break;
    case O_ASHR: r = Z3_mk_bvashr(z, toAst(e->a), toAst(e->b)); break;
    case O_EQ: r = B(Z3_mk_eq(z, toAst(e->a), toAst(e->b))); break;
    case O_ULT: r = B(Z3_mk_bvult(z, toAst(e->a), toAst(e->b))); break;
    case O_ULE: r = B(Z3_mk_bvule(z, toAst(e->a), toAst(e->b))); break;
    case O_SLT: r = B(Z3_mk_bvslt(z, toAst(e->a), toAst(e->b))); break;
    case O_SLE: r = B(Z3_mk_bvsle(z, toAst(e->a), toAst(e->b))); break;
    case O_ZEXT: r = Z3_mk_zero_ext(z, e->w - e->a->w, toAst(e->a)); break;
    case O_SEXT: r = Z3_mk_sign_ext(z, e->w - e->a->w, toAst(e->a)); break;
    case O_EXTRACT: r = Z3_mk_extract(z, e->lo + e->w - 1, e->lo, toAst(e->a)); break;
    case O_CONCAT: r = Z3_mk_concat(z, toAst(e->a), toAst(e->b)); break;
    case O_ITE: r = Z3_mk_ite(z, boolAst(e->a), toAst(e->b), toAst(e->c)); break;
    case O_READ: {
      const Table &T = C.tables[e->cval];
      Z3_ast idx = toAst(e->a);
      // run-length encoded chain of ites
      r = num(0, e->w);
      size_t i = 0, n = T.vals.size();
      std::vector<std::pair<size_t, size_t>> runs;
      while (i < n) {
        size_t j = i;
        while (j + 1 < n && T.vals[j + 1] == T.vals[i]) j++;
        runs.push_back({i, j});
        i = j + 1;
      }
      for (size_t k = runs.size(); k-- > 0;) {
        if (T.vals[runs[k].first] == 0) {
          if (k + 1 == runs.size()) continue;
        }
        Z3_ast c = Z3_mk_bvule(z, idx, num(runs[k].second, e->a->w));
        r = Z3_mk_ite(z, c, num(T.vals[runs[k].first], e->w), r);
      }
      break;
    }
    }
    Z3_inc_ref(z, r);
    ast[e->id] = r;
    return r;
  }
};
} // namespace sx
