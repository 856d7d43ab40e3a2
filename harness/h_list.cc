// Safe_List, its ranges and iterators (P19): every sequence of operations
// against a plain sequence.
#include "sx.h"
#include "flpr/Safe_List.hh"
#include <vector>
using namespace FLPR;
using L = Safe_List<int>;
using Model = std::vector<int>;
static int value(const char *n) { // 0, the default value, is among them
  unsigned char c;
  sx_symbolic(&c, 1, n);
  return c;
}
static void same(const L &l, const Model &m) {
  CHECK(l.size() == m.size(), "number of elements");
  CHECK(l.empty() == m.empty(), "emptiness");
  size_t k = 0;
  for (auto it = l.begin(); it != l.end(); ++it) {
    CHECK(k < m.size(), "an element too many");
    CHECK(*it == m[k], "value of an element");
    k++;
  }
  CHECK(k == m.size(), "an element is missing");
  auto it = l.cend();
  while (k > 0) {
    --it;
    k--;
    CHECK(*it == m[k], "value of an element, backwards");
  }
  CHECK(it == l.cbegin(), "first element, backwards");
  if (!m.empty()) {
    CHECK(l.front() == m.front(), "front");
    CHECK(l.back() == m.back(), "back");
  }
}
static L::iterator at(L &l, unsigned k) { return std::next(l.begin(), k); }
// the list, what it should hold, and iterators that someone has kept
struct Kept {
  L l;
  Model m;
  std::vector<L::iterator> it; // to the elements, in order
  L::iterator end;
  Kept() : end(l.end()) {}
  explicit Kept(L &&x) : l(std::move(x)), end(l.end()) {}
  void check() {
    same(l, m);
    CHECK(it.size() == m.size(), "harness: kept");
    auto x = l.begin();
    for (size_t k = 0; k < it.size(); k++, ++x) CHECK(it[k] == x && *it[k] == m[k], "a kept iterator leads to its element");
    CHECK(l.end() == end, "a kept end is the end");
    CHECK(std::next(l.begin(), (long)m.size()) == end, "a kept end is behind the last element");
  }
};
static void step(Kept &k) {
  unsigned n = (unsigned)k.m.size();
  switch (sx_choose(14, "operation")) {
  case 0: {
    int v = value("value");
    k.l.push_back(v);
    k.m.push_back(v);
    k.it.push_back(std::prev(k.l.end()));
    break;
  }
  case 1: {
    int v = value("value");
    int &r = k.l.emplace_back(v);
    k.m.push_back(v);
    k.it.push_back(std::prev(k.l.end()));
    CHECK(&r == &*k.it.back(), "emplace_back returns the element");
    break;
  }
  case 2: {
    int v = value("value");
    int &r = k.l.emplace_front(v);
    k.m.insert(k.m.begin(), v);
    k.it.insert(k.it.begin(), k.l.begin());
    CHECK(&r == &k.l.front(), "emplace_front returns the element");
    break;
  }
  case 3:
  case 4: {
    unsigned p = sx_choose(n + 1, "where");
    int v = value("value");
    auto r = sx_choose(2, "emplace") ? k.l.emplace(at(k.l, p), v) : k.l.insert(at(k.l, p), v);
    k.m.insert(k.m.begin() + p, v);
    CHECK(r == at(k.l, p), "insert returns the element");
    k.it.insert(k.it.begin() + p, r);
    break;
  }
  case 5: {
    unsigned p = sx_choose(n + 1, "where"), c = sx_choose(3, "how many");
    Model more;
    for (unsigned i = 0; i < c; i++) more.push_back(value("value"));
    auto r = k.l.insert(at(k.l, p), more.begin(), more.end());
    k.m.insert(k.m.begin() + p, more.begin(), more.end());
    CHECK(r == at(k.l, p), "insert returns the first element");
    for (unsigned i = 0; i < c; i++) k.it.insert(k.it.begin() + p + i, at(k.l, p + i));
    break;
  }
  case 6: {
    sx_assume(n > 0);
    unsigned p = sx_choose(n, "where");
    auto r = k.l.erase(k.it[p]);
    k.m.erase(k.m.begin() + p);
    k.it.erase(k.it.begin() + p);
    CHECK(r == (p + 1 < n ? k.it[p] : k.end), "erase returns what follows");
    break;
  }
  case 7: {
    unsigned p = sx_choose(n + 1, "from"), q = p + sx_choose(n - p + 1, "to");
    auto f = p < n ? k.it[p] : k.end, t = q < n ? k.it[q] : k.end;
    auto r = k.l.erase(f, t);
    k.m.erase(k.m.begin() + p, k.m.begin() + q);
    k.it.erase(k.it.begin() + p, k.it.begin() + q);
    CHECK(r == t, "erase returns what follows");
    break;
  }
  case 8:
    sx_assume(n > 0);
    k.l.pop_back();
    k.m.pop_back();
    k.it.pop_back();
    break;
  case 9: {
    int v = value("value");
    k.l.remove_if([v](const int &x) { return x == v; });
    for (size_t i = 0; i < k.m.size();)
      if (k.m[i] == v) {
        k.m.erase(k.m.begin() + (long)i);
        k.it.erase(k.it.begin() + (long)i);
      } else
        i++;
    break;
  }
  case 10:
    k.l.clear();
    k.m.clear();
    k.it.clear();
    break;
  case 11: { // a copy is a list of its own
    L c(k.l);
    same(c, k.m);
    CHECK(c == k.l, "a copy is equal");
    c.push_back(1);
    CHECK(!(c == k.l), "a longer list is not equal");
    if (n) {
      L d;
      d = c;
      d.front() = 2;
      CHECK(d.size() == c.size(), "copy assigned");
      c.erase(c.begin());
    }
    break;
  }
  case 12: { // the elements move
    L c(std::move(k.l));
    same(c, k.m);
    auto x = c.begin();
    for (auto i : k.it) CHECK(i == x++, "a kept iterator leads to the moved element");
    CHECK(c.end() == k.end, "a kept end moves, too");
    // what is left can be used again
    k.l.clear();
    same(k.l, Model());
    k.l = std::move(c);
    CHECK(k.l.end() == k.end, "a kept end moves back");
    break;
  }
  default: { // what is moved from is an empty list
    L c;
    c.push_back(7);
    c = std::move(k.l);
    same(c, k.m);
    same(k.l, Model());
    k.l.push_back(9);
    same(k.l, Model(1, 9));
    same(c, k.m);
    k.l = std::move(c);
    k.end = k.l.end();
    same(c, Model());
  }
  }
}
extern "C" void list_ops(int kind, int n) {
  Kept k;
  if (kind == 1)
    for (int i = 0; i < 2; i++) {
      int v = value("first");
      k.l.push_back(v);
      k.m.push_back(v);
      k.it.push_back(std::prev(k.l.end()));
    }
  k.check();
  for (int i = 0; i < n; i++) step(k), k.check();
}
extern "C" void list_make() {
  int v = value("value");
  unsigned n = sx_choose(4, "count");
  same(L(n, v), Model(n, v));
  same(L((L::size_type)n), Model(n));
  same(L{v, 0, v}, Model{v, 0, v});
  same(L(std::initializer_list<int>{}), Model());
  L a(n, v), b;
  CHECK((a == b) == (n == 0), "equality with the empty list");
  L &self = a;
  a = self;
  same(a, Model(n, v));
  a = std::move(self);
  same(a, Model(n, v));
}
// ---- ranges -----------------------------------------------------------------
using R = SL_Range<int>;
static void holds(R &r, const std::vector<L::iterator> &it, unsigned a, unsigned b) {
  CHECK(r.size() == b - a, "number of elements of a range");
  CHECK(r.empty() == (a == b), "emptiness of a range");
  CHECK(r.begin() == it[a] && r.cbegin() == it[a], "begin of a range");
  CHECK(r.end() == it[b] && r.cend() == it[b], "end of a range");
  if (a < b) {
    CHECK(r.last() == it[b - 1], "last of a range");
    CHECK(&r.front() == &*it[a] && &r.back() == &*it[b - 1], "front and back of a range");
    const R &c = r;
    CHECK(c.last() == it[b - 1] && &c.front() == &*it[a] && &c.back() == &*it[b - 1], "a constant range");
  }
  unsigned k = a;
  for (SL_Range_Iterator<int> i(r); i; i.advance()) {
    CHECK(k < b && i.iter() == it[k] && &*i == &*it[k], "a range iterator visits the elements in order");
    CHECK(!(!i), "a range iterator is not at the end");
    k++;
  }
  CHECK(k == b, "a range iterator visits every element");
  SL_Const_Range<int> c(r.cbegin(), r.cend());
  CHECK(c.size() == b - a && c.empty() == (a == b), "a range of constant elements");
  CHECK(c.begin() == it[a] && c.end() == it[b], "bounds of a range of constant elements");
  if (a < b) CHECK(c.last() == it[b - 1] && &c.front() == &*it[a] && &c.back() == &*it[b - 1], "ends of a range of constant elements");
}
extern "C" void list_ranges(int n, int ops) {
  L l;
  for (int i = 0; i < n; i++) l.push_back(value("element"));
  std::vector<L::iterator> it;
  for (auto i = l.begin(); i != l.end(); ++i) it.push_back(i);
  it.push_back(l.end());
  R whole(l);
  holds(whole, it, 0, (unsigned)n);
  unsigned a = sx_choose((unsigned)n + 1, "begin"), b = a + sx_choose((unsigned)n + 1 - a, "end");
  R r(it[a], it[b]);
  bool bad = false;
  holds(r, it, a, b);
  for (int o = 0; o < ops; o++) {
    switch (sx_choose(7, "operation")) {
    case 0: { // what is before
      sx_assume(!bad && a <= b);
      unsigned c = sx_choose(a + 1, "from");
      R x(it[c], it[a]);
      r.push_front(x);
      if (c < a && a == b) b = a;
      a = c;
      break;
    }
    case 1: {
      sx_assume(!bad);
      unsigned c = b + sx_choose((unsigned)n + 1 - b, "to");
      R x(it[b], it[c]);
      r.push_back(x);
      b = c;
      break;
    }
    case 2: { // extending an empty range is taking the other one
      r.clear();
      CHECK(r.size() == 0 && r.empty(), "a cleared range is empty");
      a = sx_choose((unsigned)n + 1, "begin"), b = a + sx_choose((unsigned)n + 1 - a, "end");
      R x(it[a], it[b]);
      if (sx_choose(2, "front")) r.push_front(x);
      else r.push_back(x);
      if (a == b) {
        CHECK(r.empty(), "an empty range with an empty one is empty");
        r.assign_range(x);
      }
      break;
    }
    case 3: {
      unsigned c = sx_choose((unsigned)n + 1, "where");
      r.clear(it[c]);
      a = b = c;
      break;
    }
    case 4: {
      R x(r), y;
      CHECK(x.equal(r) && r.equal(x), "a copied range is equal");
      CHECK(!y.equal(r) && !r.equal(y), "a range without place is equal to none");
      CHECK(y.empty() && y.size() == 0, "a new range is empty");
      y = x;
      CHECK(y.equal(r), "an assigned range is equal");
      unsigned c = sx_choose((unsigned)n + 1, "begin"), d = c + sx_choose((unsigned)n + 1 - c, "end");
      R z(it[c], it[d]);
      CHECK(z.equal(r) == (c == a && d == b), "ranges are equal if their elements are");
      break;
    }
    case 5: { // the same elements of a copied list
      L copy(l);
      R x = rebase<int>(l.cbegin(), r, copy.begin());
      CHECK(x.size() == b - a, "size of a rebased range");
      CHECK(x.begin() == std::next(copy.begin(), a) && x.end() == std::next(copy.begin(), b), "place of a rebased range");
      break;
    }
    default: { // the list grows inside of the range
      sx_assume(a < b);
      unsigned c = a + 1 + sx_choose(b - a, "where");
      int v = value("more");
      auto x = l.insert(it[c], v);
      it.insert(it.begin() + c, x);
      n++;
      b++;
      r.assign_range(R(it[a], it[b]));
    }
    }
    holds(r, it, a, b);
  }
}
