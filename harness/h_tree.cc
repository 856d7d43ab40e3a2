// Tree, its nodes and cursors (P20): every sequence of operations against a
// plain recursive structure.
#include "sx.h"
#include "flpr/Tree.hh"
#include <memory>
#include <vector>
using namespace FLPR;
using T = Tree<int>;
struct M {
  int v;
  std::vector<M> kids;
};
static int value(const char *n) {
  unsigned char c;
  sx_symbolic(&c, 1, n);
  return c;
}
static size_t count(const M &m) {
  size_t n = 1;
  for (auto &k : m.kids) n += count(k);
  return n;
}
static void same(T::cursor_t c, const M &m, T::iterator up, bool root, size_t index, size_t of) {
  CHECK(bool(c), "a cursor is on a node");
  CHECK(*c == m.v && *c.node() == m.v, "value of a node");
  CHECK(c.is_root() == root && c.has_up() == !root && c.node().is_root() == root, "root");
  CHECK(c.is_leaf() == m.kids.empty() && c.is_fork() == !m.kids.empty() && c.has_down() == !m.kids.empty(), "leaf or fork");
  CHECK(c.num_branches() == m.kids.size() && c.node().num_branches() == m.kids.size(), "number of branches");
  CHECK(c.node().size() == count(m), "number of nodes of a subtree");
  CHECK(c.has_prev() == (index > 0) && c.has_next() == (index + 1 < of), "neighbours");
  auto s = c.self();
  CHECK(&*s == &c.node() && c.node().self() == s, "a node's own place");
  if (!root) {
    CHECK(c.node().trunk() == up, "parent of a node");
    T::cursor_t u(c);
    CHECK(&u.up().node() == &*up, "moving up");
  }
  T::const_cursor_t k(c);
  CHECK(bool(k) && *k == m.v && k.is_root() == root && k.has_up() == !root && k.is_leaf() == m.kids.empty() && k.is_fork() == !m.kids.empty() && k.has_down() == !m.kids.empty() && k.num_branches() == m.kids.size() && k.has_prev() == (index > 0) && k.has_next() == (index + 1 < of) && &k.node() == &c.node(), "a constant cursor");
  // as many steps as there are, no more
  for (int n = 0; n < 4; n++) {
    T::cursor_t x(c);
    T::const_cursor_t y(c);
    bool ok = root ? n == 0 : index + (size_t)n < of;
    CHECK(x.try_next(n) == ok && y.try_next(n) == ok, "trying to move on");
    size_t at = ok ? index + (size_t)n : of - 1;
    CHECK(x.self() == (root ? s : std::next(up->branches().begin(), (long)at)) && &y.node() == &x.node(), "where a cursor has moved to");
    if (ok && n) {
      CHECK(&x.prev(n).node() == &c.node() && &y.prev(n).node() == &c.node(), "moving back");
      CHECK(&x.next(n).node() == &y.next(n).node() && x.self() == std::next(s, n), "moving on");
    }
    T::cursor_t d(c);
    T::const_cursor_t e(c);
    const M *p = &m;
    int deep = 0;
    while (deep < n && !p->kids.empty()) {
      p = &p->kids[0];
      deep++;
    }
    CHECK(d.try_down(n) == (deep == n) && e.try_down(n) == (deep == n), "trying to move down");
    CHECK(*d == p->v && &e.node() == &d.node(), "where a cursor has moved down to");
    if (deep) CHECK(&d.up(deep).node() == &c.node() && &e.up(deep).node() == &c.node(), "moving up again");
    if (deep == n) {
      T::cursor_t g(c);
      T::const_cursor_t h(c);
      CHECK(*g.down(n) == p->v && &h.down(n).node() == &g.node(), "moving down");
    }
  }
  if (m.kids.empty()) return;
  size_t i = 0;
  T::cursor_t d(c);
  d.down();
  for (auto b = c.node().branches().begin(); b != c.node().branches().end(); ++b) {
    CHECK(i < m.kids.size(), "a branch too many");
    CHECK(&*b == &d.node(), "branches in order");
    same(T::cursor_t(b), m.kids[i], s, false, i, m.kids.size());
    i++;
    if (i < m.kids.size()) d.next();
  }
  CHECK(i == m.kids.size(), "a branch is missing");
}
static void same(T &t, const std::unique_ptr<M> &m) {
  const T &c = t;
  t.check();
  CHECK(t.empty() == !m && c.empty() == !m, "emptiness of a tree");
  CHECK(t.size() == (m ? count(*m) : 0), "number of nodes of a tree");
  if (!m) return;
  CHECK(bool(t) && t.tree_initialized(), "a tree with nodes");
  CHECK(&*t == &*t.root() && &*c == &*c.root() && &*c == &*c.croot() && &*t == &*c, "root of a tree");
  CHECK(&t.cursor().node() == &*t && &c.cursor().node() == &*t && &t.ccursor().node() == &*t, "cursor of a tree");
  CHECK(**t == m->v && *t.cursor().operator->() == m->v, "value of the root");
  same(t.cursor(), *m, t.root(), true, 0, 1);
}
// any node of the tree
static T::cursor_t pick(T &t, M &m, M *&at, std::vector<int> &path) {
  T::cursor_t c = t.cursor();
  at = &m;
  path.clear();
  while (!at->kids.empty() && sx_choose(2, "down")) {
    unsigned k = sx_choose((unsigned)at->kids.size(), "branch");
    c.down();
    if (k) c.next((int)k);
    at = &at->kids[k];
    path.push_back((int)k);
  }
  return c;
}
static void make(T &t, std::unique_ptr<M> &m, unsigned shape) {
  int v = value("root");
  if (shape == 0) {
    t = T();
    m.reset();
    return;
  }
  t = T(v);
  m.reset(new M{v, {}});
  for (unsigned i = 1; i < shape; i++) {
    int w = value("branch");
    t->emplace_back(T::node(w));
    m->kids.push_back({w, {}});
  }
}
static void step(T &t, std::unique_ptr<M> &m) {
  M *at;
  std::vector<int> path;
  unsigned op = sx_choose(10, "operation");
  sx_assume(m || op >= 8);
  switch (op) {
  case 0:
  case 1:
  case 2: { // a new branch of any node
    T::cursor_t c = pick(t, *m, at, path);
    int v = value("value");
    unsigned n = (unsigned)at->kids.size(), k = op == 0 ? 0 : op == 1 ? n : sx_choose(n + 1, "where");
    T::iterator b;
    if (op == 0) b = c.node().emplace_front(T::node(v));
    else if (op == 1) b = c.node().emplace_back(T::node(v));
    else b = c.node().emplace(std::next(c.node().branches().begin(), k), T::node(v));
    at->kids.insert(at->kids.begin() + k, M{v, {}});
    CHECK(b == std::next(c.node().branches().begin(), k), "the new branch is returned");
    break;
  }
  case 3: { // a branch goes
    T::cursor_t c = pick(t, *m, at, path);
    unsigned n = (unsigned)at->kids.size();
    sx_assume(n > 0);
    unsigned k = sx_choose(n, "which");
    c.node().branches().erase(std::next(c.node().branches().begin(), k));
    at->kids.erase(at->kids.begin() + k);
    break;
  }
  case 4:
  case 5: { // another tree becomes a branch
    T d;
    std::unique_ptr<M> dm;
    make(d, dm, 1 + sx_choose(3, "shape"));
    unsigned n = (unsigned)m->kids.size(), where = sx_choose(3, "where"), k = where == 0 ? 0 : where == 1 ? n : sx_choose(n + 1, "place");
    T::iterator b, pos = std::next(t->branches().begin(), k);
    if (op == 4) {
      b = where == 0 ? t.graft_front(d) : where == 1 ? t.graft_back(d) : t.graft(pos, d);
      same(d, std::unique_ptr<M>());
    } else
      b = where == 0 ? t.graft_front(std::move(d)) : where == 1 ? t.graft_back(std::move(d)) : t.graft(T::const_iterator(pos), std::move(d));
    m->kids.insert(m->kids.begin() + k, *dm);
    CHECK(b == std::next(t->branches().begin(), k), "the new branch is returned");
    break;
  }
  case 6: { // two nodes change places, with what is below them
    M *other;
    std::vector<int> p2;
    T::cursor_t c = pick(t, *m, at, path), d = pick(t, *m, other, p2);
    size_t l = path.size() < p2.size() ? path.size() : p2.size();
    bool above = true;
    for (size_t i = 0; i < l; i++) above &= path[i] == p2[i];
    sx_assume(!above || at == other);
    c.node().swap(d.node());
    std::swap(*at, *other);
    break;
  }
  case 7: { // the value of a node
    T::cursor_t c = pick(t, *m, at, path);
    int v = value("value");
    *c = v;
    at->v = v;
    break;
  }
  case 8: { // trees change places
    T d;
    std::unique_ptr<M> dm;
    make(d, dm, sx_choose(3, "shape"));
    unsigned how = sx_choose(3, "how");
    if (how == 0) t.swap(d);
    else if (how == 1) {
      T x(std::move(t));
      CHECK(t.empty() && !t, "a tree that was moved from");
      t = std::move(d);
      CHECK(d.empty() && !d, "a tree that was moved from");
      d = std::move(x);
    } else {
      T x;
      x.swap(t);
      t.swap(d);
      x.swap(d);
    }
    m.swap(dm);
    same(d, dm);
    break;
  }
  default:
    t.clear();
    m.reset();
    same(t, m);
    make(t, m, sx_choose(3, "shape"));
  }
}
extern "C" void tree_ops(int shape, int n) {
  T t;
  std::unique_ptr<M> m;
  make(t, m, (unsigned)shape);
  same(t, m);
  for (int i = 0; i < n; i++) step(t, m), same(t, m);
}
static std::string text(const M &m) {
  std::string s = std::to_string(m.v);
  if (m.kids.empty()) return s;
  s += " <";
  for (auto &k : m.kids) s += text(k) + " ";
  return s + ">";
}
extern "C" void tree_make() {
  int v = value("value");
  T a(true), b(false), c(v);
  std::unique_ptr<M> none, zero(new M{0, {}}), one(new M{v, {}});
  same(a, zero);
  same(c, one);
  CHECK(b.empty() && b.size() == 0, "a tree without a root");
  b.check();
  b.swap(c);
  same(b, one);
  CHECK(c.empty() && c.size() == 0, "a tree without a root");
  T::cursor_t none_c;
  CHECK(!none_c && !T::const_cursor_t(), "a cursor on nothing");
  T::cursor_t k = b.cursor();
  T::const_cursor_t l = b.ccursor();
  CHECK(bool(k) && bool(l), "a cursor on a root");
  k.clear();
  l.clear();
  CHECK(!k && !l, "a cleared cursor");
  T d(1);
  d->emplace_back(T::node(2))->emplace_back(T::node(3));
  d->emplace_back(T::node(4));
  SxOut o, p, q, r;
  o.os() << d;
  CHECK(o.str() == "1 <2 <3 > 4 >", "a printed tree");
  T e;
  p.os() << e;
  CHECK(p.str() == "<empty>", "a printed empty tree");
  q.os() << c;
  CHECK(q.str() == "<empty>", "a printed tree without a root");
}
