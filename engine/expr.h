// Expression layer of the symbolic executor: hash-consed bit-vector terms.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>

namespace sx {
typedef uint64_t u64;
typedef int64_t i64;

enum Op : uint8_t {
  O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND,
  O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ZEXT,
  O_SEXT, O_EXTRACT, O_CONCAT, O_ITE, O_READ
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sextw(u64 v, unsigned w) {
  if (w >= 64) return (i64)v;
  u64 m = 1ull << (w - 1);
  v &= maskw(w);
  return (i64)((v ^ m) - m);
}

struct VarSet {
  int id;
  std::vector<int> v;
};

struct Expr {
  Op op;
  uint8_t w;
  uint16_t lo; // extract low bit
  uint32_t id;
  u64 cval; // constant, var index, or table index
  Expr *a, *b, *c;
  VarSet *vars;
  int sv; // the only variable, -1 if none, -2 if several
  u64 *tab; // lazily built 256-entry table when sv>=0
  bool kc;  // constant over all 256 values
};

// A value: concrete when e==nullptr
struct Value {
  u64 c = 0;
  Expr *e = nullptr;
  Value() {}
  Value(u64 x) : c(x) {}
  Value(Expr *x) : c(0), e(x) {}
  bool sym() const { return e != nullptr; }
};

struct Table { // constant table for O_READ: little-endian elements
  std::vector<u64> vals; // one entry per index 0..n-1
};

struct VarInfo {
  std::string name;
  bool undef;
};

class Ctx {
public:
  std::vector<VarInfo> varinfo;
  std::vector<Table> tables;
  std::vector<VarSet *> varsets;
  u64 nexprs = 0;

  Ctx() {
    emptyvs = mkvs({});
  }
  int newVar(const std::string &n, bool undef) {
    varinfo.push_back({n, undef});
    return (int)varinfo.size() - 1;
  }
  Expr *var(int i) { return intern(O_VAR, 8, 0, (u64)i, nullptr, nullptr, nullptr); }
  Expr *konst(u64 v, unsigned w) { return intern(O_CONST, w, 0, v & maskw(w), nullptr, nullptr, nullptr); }
  Expr *ex(const Value &v, unsigned w) { return v.e ? v.e : konst(v.c, w); }

  static u64 evalOp(Op op, unsigned w, unsigned lo, u64 x, u64 y, u64 z, unsigned wa, unsigned wb) {
    u64 m = maskw(w);
    switch (op) {
    case O_ADD: return (x + y) & m;
    case O_SUB: return (x - y) & m;
    case O_MUL: return (x * y) & m;
    case O_UDIV: return y ? (x / y) & m : m;
    case O_UREM: return y ? (x % y) & m : x;
    case O_SDIV: {
      i64 a = sextw(x, w), b = sextw(y, w);
      if (b == 0) return a < 0 ? 1 : m;
      if (b == -1) return (0 - (u64)a) & m;
      return (u64)(a / b) & m;
    }
    case O_SREM: {
      i64 a = sextw(x, w), b = sextw(y, w);
      if (b == 0) return x;
      if (b == -1) return 0;
      return (u64)(a % b) & m;
    }
    case O_AND: return x & y;
    case O_OR: return x | y;
    case O_XOR: return x ^ y;
    case O_SHL: return y >= w ? 0 : (x << y) & m;
    case O_LSHR: return y >= w ? 0 : (x & m) >> y;
    case O_ASHR: return (u64)(sextw(x, w) >> (y >= w ? w - 1 : y)) & m;
    case O_EQ: return x == y;
    case O_ULT: return x < y;
    case O_ULE: return x <= y;
    case O_SLT: return sextw(x, wa) < sextw(y, wa);
    case O_SLE: return sextw(x, wa) <= sextw(y, wa);
    case O_ZEXT: return x;
    case O_SEXT: return (u64)sextw(x, wa) & m;
    case O_EXTRACT: return (x >> lo) & m;
    case O_CONCAT: return ((x << wb) | y) & m;
    case O_ITE: return x ? y : z;
    default: abort();
    }
  }

  const u64 *table(Expr *e) { // e->sv>=0
    if (e->tab) return e->tab;
    u64 *t = (u64 *)malloc(256 * sizeof(u64));
    if (e->op == O_VAR) {
      for (int i = 0; i < 256; i++) t[i] = i;
    } else if (e->op == O_READ) {
      const u64 *x = table(e->a);
      const Table &T = tables[e->cval];
      for (int i = 0; i < 256; i++) t[i] = x[i] < T.vals.size() ? T.vals[x[i]] : 0;
    } else {
      u64 tmp[3][256];
      const u64 *p[3] = {tmp[0], tmp[1], tmp[2]};
      Expr *ch[3] = {e->a, e->b, e->c};
      for (int k = 0; k < 3; k++) {
        if (!ch[k]) continue;
        if (ch[k]->op == O_CONST) {
          for (int i = 0; i < 256; i++) tmp[k][i] = ch[k]->cval;
        } else
          p[k] = table(ch[k]);
      }
      unsigned wa = e->a ? e->a->w : 0, wb = e->b ? e->b->w : 0;
      for (int i = 0; i < 256; i++)
        t[i] = evalOp(e->op, e->w, e->lo, p[0][i], e->b ? p[1][i] : 0, e->c ? p[2][i] : 0, wa, wb);
    }
    e->tab = t;
    return t;
  }

  // evaluate under an assignment
  u64 eval(Expr *e, const std::vector<uint8_t> &as) {
    if (e->op == O_CONST) return e->cval;
    if (e->sv >= 0) return table(e)[e->sv < (int)as.size() ? as[e->sv] : 0];
    if (e->op == O_READ) {
      u64 i = eval(e->a, as);
      const Table &T = tables[e->cval];
      return i < T.vals.size() ? T.vals[i] : 0;
    }
    if (e->op == O_ITE) return eval(e->a, as) ? eval(e->b, as) : eval(e->c, as);
    u64 x = eval(e->a, as), y = e->b ? eval(e->b, as) : 0;
    return evalOp(e->op, e->w, e->lo, x, y, 0, e->a->w, e->b ? e->b->w : 0);
  }

  // ---- constructors returning Value (folded) -------------------------
  Value bin(Op op, Value x, Value y, unsigned w) { // arithmetic: operand width w
    if (!x.e && !y.e) return Value(evalOp(op, w, 0, x.c & maskw(w), y.c & maskw(w), 0, w, w));
    switch (op) {
    case O_ADD:
      if (!x.e) std::swap(x, y);
      if (!y.e && (y.c & maskw(w)) == 0) return x;
      if (!y.e && x.e->op == O_ADD && x.e->b->op == O_CONST)
        return bin(O_ADD, Value(x.e->a), Value((x.e->b->cval + y.c) & maskw(w)), w);
      break;
    case O_SUB:
      if (!y.e) return bin(O_ADD, x, Value((0 - y.c) & maskw(w)), w);
      if (x.e == y.e) return Value((u64)0);
      // (a+k1)-(a+k2)
      if (x.e && y.e) {
        Expr *xa = x.e; u64 xk = 0;
        Expr *ya = y.e; u64 yk = 0;
        if (xa->op == O_ADD && xa->b->op == O_CONST) { xk = xa->b->cval; xa = xa->a; }
        if (ya->op == O_ADD && ya->b->op == O_CONST) { yk = ya->b->cval; ya = ya->a; }
        if (xa == ya) return Value((xk - yk) & maskw(w));
      }
      break;
    case O_MUL:
      if (!x.e) std::swap(x, y);
      if (!y.e && (y.c & maskw(w)) == 0) return Value((u64)0);
      if (!y.e && (y.c & maskw(w)) == 1) return x;
      break;
    case O_AND:
      if (!x.e) std::swap(x, y);
      if (!y.e && (y.c & maskw(w)) == 0) return Value((u64)0);
      if (!y.e && (y.c & maskw(w)) == maskw(w)) return x;
      if (x.e == y.e) return x;
      if (!y.e && x.e->op == O_ZEXT && (y.c & maskw(x.e->a->w)) == maskw(x.e->a->w)) return x;
      break;
    case O_OR:
      if (!x.e) std::swap(x, y);
      if (!y.e && (y.c & maskw(w)) == 0) return x;
      if (!y.e && (y.c & maskw(w)) == maskw(w)) return Value(maskw(w));
      if (x.e == y.e) return x;
      break;
    case O_XOR:
      if (!x.e) std::swap(x, y);
      if (!y.e && (y.c & maskw(w)) == 0) return x;
      if (x.e == y.e) return Value((u64)0);
      if (w == 1 && !y.e && y.c == 1 && x.e->op == O_XOR && x.e->b->op == O_CONST && x.e->w == 1) return Value(x.e->a);
      if (w == 1 && !y.e && y.c == 1) { // not of comparisons
        Expr *k = x.e;
        if (k->op == O_ULT) return Value(mk(O_ULE, 1, 0, 0, k->b, k->a));
        if (k->op == O_ULE) return Value(mk(O_ULT, 1, 0, 0, k->b, k->a));
        if (k->op == O_SLT) return Value(mk(O_SLE, 1, 0, 0, k->b, k->a));
        if (k->op == O_SLE) return Value(mk(O_SLT, 1, 0, 0, k->b, k->a));
      }
      break;
    case O_SHL: case O_LSHR: case O_ASHR:
      if (!y.e && y.c == 0) return x;
      if (!y.e && y.c < w && op == O_LSHR) return zext(extract(x, (unsigned)y.c, w - (unsigned)y.c, w), w - (unsigned)y.c, w);
      if (!y.e && y.c < w && op == O_SHL) return concat(extract(x, 0, w - (unsigned)y.c, w), w - (unsigned)y.c, Value((u64)0), (unsigned)y.c);
      break;
    default: break;
    }
    return fin(mk(op, w, 0, 0, ex(x, w), ex(y, w)));
  }
  Value cmp(Op op, Value x, Value y, unsigned w) {
    if (!x.e && !y.e) return Value(evalOp(op, 1, 0, x.c & maskw(w), y.c & maskw(w), 0, w, w));
    if (x.e == y.e) return Value((u64)(op == O_EQ || op == O_ULE || op == O_SLE));
    if (op == O_EQ) {
      if (!x.e) std::swap(x, y);
      if (!y.e) {
        Expr *k = x.e;
        u64 v = y.c & maskw(w);
        if (w == 1) return v ? x : bin(O_XOR, x, Value(1), 1);
        if (k->op == O_ZEXT) {
          if (v & ~maskw(k->a->w)) return Value((u64)0);
          return cmp(O_EQ, Value(k->a), Value(v), k->a->w);
        }
        if (k->op == O_SEXT) {
          u64 t = v & maskw(k->a->w);
          if (((u64)sextw(t, k->a->w) & maskw(w)) != v) return Value((u64)0);
          return cmp(O_EQ, Value(k->a), Value(t), k->a->w);
        }
        if (k->op == O_ADD && k->b->op == O_CONST)
          return cmp(O_EQ, Value(k->a), Value((v - k->b->cval) & maskw(w)), w);
        if (k->op == O_CONCAT) {
          Value hi = cmp(O_EQ, val(k->a), Value((v >> k->b->w) & maskw(k->a->w)), k->a->w);
          if (!hi.e && !hi.c) return hi;
          Value lo = cmp(O_EQ, val(k->b), Value(v & maskw(k->b->w)), k->b->w);
          return bin(O_AND, hi, lo, 1);
        }
        if (k->op == O_ITE && (k->b->op == O_CONST || k->c->op == O_CONST)) {
          Value eb = cmp(O_EQ, val(k->b), Value(v), w), ec = cmp(O_EQ, val(k->c), Value(v), w);
          if ((!eb.e) || (!ec.e)) return ite(Value(k->a), eb, ec, 1);
        }
      } else {
        Expr *xa = x.e; u64 xk = 0;
        Expr *ya = y.e; u64 yk = 0;
        if (xa->op == O_ADD && xa->b->op == O_CONST) { xk = xa->b->cval; xa = xa->a; }
        if (ya->op == O_ADD && ya->b->op == O_CONST) { yk = ya->b->cval; ya = ya->a; }
        if (xa == ya) return Value((u64)(((xk - yk) & maskw(w)) == 0));
        if (x.e->op == O_ZEXT && y.e->op == O_ZEXT && x.e->a->w == y.e->a->w)
          return cmp(O_EQ, Value(x.e->a), Value(y.e->a), x.e->a->w);
        if (x.e->op == O_SEXT && y.e->op == O_SEXT && x.e->a->w == y.e->a->w)
          return cmp(O_EQ, Value(x.e->a), Value(y.e->a), x.e->a->w);
        if (x.e->id > y.e->id) std::swap(x, y);
      }
    }
    return fin(mk(op, 1, 0, 0, ex(x, w), ex(y, w)));
  }
  Value val(Expr *e) { return e->op == O_CONST ? Value(e->cval) : Value(e); }
  Value zext(Value x, unsigned wf, unsigned wt) {
    if (!x.e) return Value(x.c & maskw(wf));
    if (wf == wt) return x;
    if (x.e->op == O_ZEXT) return zext(Value(x.e->a), x.e->a->w, wt);
    return fin(mk(O_ZEXT, wt, 0, 0, x.e));
  }
  Value sext(Value x, unsigned wf, unsigned wt) {
    if (!x.e) return Value((u64)sextw(x.c, wf) & maskw(wt));
    if (wf == wt) return x;
    if (x.e->op == O_ZEXT) return zext(Value(x.e->a), x.e->a->w, wt);
    if (x.e->op == O_SEXT) return sext(Value(x.e->a), x.e->a->w, wt);
    return fin(mk(O_SEXT, wt, 0, 0, x.e));
  }
  Value extract(Value x, unsigned lo, unsigned w, unsigned wf) {
    if (!x.e) return Value((x.c >> lo) & maskw(w));
    if (lo == 0 && w == wf) return x;
    Expr *k = x.e;
    switch (k->op) {
    case O_EXTRACT: return extract(Value(k->a), lo + k->lo, w, k->a->w);
    case O_ZEXT:
      if (lo >= k->a->w) return Value((u64)0);
      if (lo + w <= k->a->w) return extract(Value(k->a), lo, w, k->a->w);
      if (lo == 0) return zext(Value(k->a), k->a->w, w);
      break;
    case O_SEXT:
      if (lo + w <= k->a->w) return extract(Value(k->a), lo, w, k->a->w);
      if (lo == 0) return sext(Value(k->a), k->a->w, w);
      break;
    case O_CONCAT: {
      unsigned wb = k->b->w;
      if (lo + w <= wb) return extract(val(k->b), lo, w, wb);
      if (lo >= wb) return extract(val(k->a), lo - wb, w, k->a->w);
      Value hi = extract(val(k->a), 0, w - (wb - lo), k->a->w);
      Value l = extract(val(k->b), lo, wb - lo, wb);
      return concat(hi, w - (wb - lo), l, wb - lo);
    }
    case O_ADD: case O_AND: case O_OR: case O_XOR: case O_SUB: case O_MUL:
      if (lo == 0) return bin(k->op, extract(val(k->a), 0, w, wf), extract(val(k->b), 0, w, wf), w);
      break;
    case O_ITE: {
      Value b = extract(val(k->b), lo, w, wf), c = extract(val(k->c), lo, w, wf);
      return ite(Value(k->a), b, c, w);
    }
    default: break;
    }
    return fin(mk(O_EXTRACT, w, lo, 0, k));
  }
  Value concat(Value hi, unsigned wh, Value lo, unsigned wl) {
    unsigned w = wh + wl;
    if (!hi.e && !lo.e) return Value(((hi.c & maskw(wh)) << wl) | (lo.c & maskw(wl)));
    if (!hi.e && (hi.c & maskw(wh)) == 0) return zext(lo, wl, w);
    if (hi.e && lo.e) {
      // adjacent extracts of one term
      Expr *h = hi.e, *l = lo.e;
      Expr *hb = h->op == O_EXTRACT ? h->a : nullptr;
      if (hb && l->op == O_EXTRACT && l->a == hb && h->lo == l->lo + l->w)
        return extract(Value(hb), l->lo, w, hb->w);
      if (hb && l == hb) {} // not adjacent
      if (hb && h->lo == wl && false) {}
    }
    return fin(mk(O_CONCAT, w, 0, 0, ex(hi, wh), ex(lo, wl)));
  }
  Value ite(Value c, Value x, Value y, unsigned w) {
    if (!c.e) return c.c & 1 ? x : y;
    if (!x.e && !y.e && (x.c & maskw(w)) == (y.c & maskw(w))) return x;
    if (x.e && x.e == y.e) return x;
    if (w == 1) {
      if (!x.e && !y.e) return x.c & 1 ? c : bin(O_XOR, c, Value(1), 1);
      if (!x.e) return x.c & 1 ? bin(O_OR, c, y, 1) : bin(O_AND, bin(O_XOR, c, Value(1), 1), y, 1);
      if (!y.e) return y.c & 1 ? bin(O_OR, bin(O_XOR, c, Value(1), 1), x, 1) : bin(O_AND, c, x, 1);
    }
    return fin(mk(O_ITE, w, 0, 0, c.e, ex(x, w), ex(y, w)));
  }
  Value read(int tab, Value idx, unsigned w) {
    if (!idx.e) return Value(idx.c < tables[tab].vals.size() ? tables[tab].vals[idx.c] : 0);
    return fin(mk(O_READ, w, 0, (u64)tab, idx.e));
  }
  int newTable(std::vector<u64> &&v, u64 h) {
    auto r = tabidx.equal_range(h);
    for (auto it = r.first; it != r.second; ++it)
      if (tables[it->second].vals == v) return it->second;
    tables.push_back({std::move(v)});
    tabidx.emplace(h, (int)tables.size() - 1);
    return (int)tables.size() - 1;
  }
  VarSet *unite(VarSet *x, VarSet *y) {
    if (x == y || y->v.empty()) return x;
    if (x->v.empty()) return y;
    if (x->id > y->id) std::swap(x, y);
    u64 key = ((u64)x->id << 32) | (u64)y->id;
    auto it = ucache.find(key);
    if (it != ucache.end()) return it->second;
    std::vector<int> r;
    std::set_union(x->v.begin(), x->v.end(), y->v.begin(), y->v.end(), std::back_inserter(r));
    VarSet *s = mkvs(r);
    ucache[key] = s;
    return s;
  }
  VarSet *emptyvs;

private:
  std::unordered_multimap<u64, int> tabidx;
  std::unordered_map<u64, VarSet *> ucache;
  std::map<std::vector<int>, VarSet *> vsidx;
  struct H {
    size_t operator()(const Expr *e) const {
      u64 h = e->op * 0x9E3779B97F4A7C15ull + e->w * 131 + e->lo * 7919;
      h ^= e->cval * 0xff51afd7ed558ccdull;
      h = (h ^ (h >> 29)) * 0xbf58476d1ce4e5b9ull;
      if (e->a) h ^= (u64)e->a->id * 0x94d049bb133111ebull;
      h = (h ^ (h >> 31)) * 0x9E3779B97F4A7C15ull;
      if (e->b) h ^= (u64)e->b->id * 0xff51afd7ed558ccdull;
      h = (h ^ (h >> 29)) * 0xbf58476d1ce4e5b9ull;
      if (e->c) h ^= (u64)e->c->id * 0x94d049bb133111ebull;
      return h ^ (h >> 32);
    }
  };
  struct Q {
    bool operator()(const Expr *x, const Expr *y) const {
      return x->op == y->op && x->w == y->w && x->lo == y->lo && x->cval == y->cval && x->a == y->a && x->b == y->b && x->c == y->c;
    }
  };
  std::unordered_set<Expr *, H, Q> cons;
  VarSet *mkvs(const std::vector<int> &v) {
    auto it = vsidx.find(v);
    if (it != vsidx.end()) return it->second;
    VarSet *s = new VarSet{(int)varsets.size(), v};
    varsets.push_back(s);
    vsidx[v] = s;
    return s;
  }
  Expr *mk(Op op, unsigned w, unsigned lo, u64 cval, Expr *a, Expr *b = nullptr, Expr *c = nullptr) {
    return intern(op, w, lo, cval, a, b, c);
  }
  Value fin(Expr *e) {
    // a term over one byte that is constant for all its 256 values is a constant
    if (e->sv >= 0 && !e->tab) {
      const u64 *t = table(e);
      bool same = true;
      for (int i = 1; i < 256 && same; i++) same = t[i] == t[0];
      e->kc = same;
    }
    if (e->kc) return Value(e->tab[0]);
    return Value(e);
  }
  Expr *intern(Op op, unsigned w, unsigned lo, u64 cval, Expr *a, Expr *b, Expr *c) {
    Expr k;
    k.op = op; k.w = (uint8_t)w; k.lo = (uint16_t)lo; k.cval = cval; k.a = a; k.b = b; k.c = c;
    auto it = cons.find(&k);
    if (it != cons.end()) return *it;
    Expr *e = (Expr *)alloc();
    *e = k;
    e->id = (uint32_t)nexprs++;
    e->tab = nullptr;
    e->kc = false;
    if (op == O_CONST) e->vars = emptyvs;
    else if (op == O_VAR) e->vars = mkvs({(int)cval});
    else {
      e->vars = a->vars;
      if (b) e->vars = unite(e->vars, b->vars);
      if (c) e->vars = unite(e->vars, c->vars);
    }
    e->sv = e->vars->v.empty() ? -1 : e->vars->v.size() == 1 ? e->vars->v[0] : -2;
    cons.insert(e);
    return e;
  }
  char *arena = nullptr;
  size_t left = 0;
  void *alloc() {
    if (left < sizeof(Expr)) {
      left = sizeof(Expr) * 4096;
      arena = (char *)malloc(left);
    }
    void *p = arena;
    arena += sizeof(Expr);
    left -= sizeof(Expr);
    return p;
  }
};
} // namespace sx
