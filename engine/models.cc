// Library models linked (as bitcode) with the code under test.
// 1. Explicit instantiations pull the *real* libstdc++ template bodies into the
//    module.  2. Functions libstdc++/libc keep in their compiled part are
//    given here, either under their own name or as sxm_<mangled> overrides.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <list>
#include <map>
#include <ostream>
#include <string>
#include <cerrno>
#include <climits>
#include "../harness/sx_stream.h"

template class std::__cxx11::basic_string<char>;

extern "C" const char *sxm_exc_generic(void *) { return "exception"; }

// ---------------------------------------------------------------- <list>
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept {
  this->_M_next = p;
  this->_M_prev = p->_M_prev;
  p->_M_prev->_M_next = this;
  p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
  _List_node_base *const n = this->_M_next;
  _List_node_base *const p = this->_M_prev;
  p->_M_next = n;
  n->_M_prev = p;
}
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    this->_M_prev->_M_next = first;
    _List_node_base *const tmp = this->_M_prev;
    this->_M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = tmp;
  }
}
void _List_node_base::_M_reverse() noexcept {
  _List_node_base *tmp = this;
  do {
    _List_node_base *n = tmp->_M_next;
    tmp->_M_next = tmp->_M_prev;
    tmp->_M_prev = n;
    tmp = n;
  } while (tmp != this);
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      std::swap(x._M_next, y._M_next);
      std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next;
      y._M_prev = x._M_prev;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
      x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next;
    x._M_prev = y._M_prev;
    x._M_next->_M_prev = x._M_prev->_M_next = &x;
    y._M_next = y._M_prev = &y;
  }
}
}} // namespace std::__detail

// ---------------------------------------------------------------- <map>/<set>
// An unbalanced search tree is observationally the same container.
namespace std {
static _Rb_tree_node_base *inc(_Rb_tree_node_base *x) {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
  } else {
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_right) {
      x = y;
      y = y->_M_parent;
    }
    if (x->_M_right != y) x = y;
  }
  return x;
}
static _Rb_tree_node_base *dec(_Rb_tree_node_base *x) {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) {
    _Rb_tree_node_base *y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    x = y;
  } else {
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_left) {
      x = y;
      y = y->_M_parent;
    }
    x = y;
  }
  return x;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &header) throw() {
  x->_M_parent = p;
  x->_M_left = x->_M_right = nullptr;
  x->_M_color = _S_black; // header alone is red
  if (left) {
    p->_M_left = x;
    if (p == &header) {
      header._M_parent = x;
      header._M_right = x;
    } else if (p == header._M_left) header._M_left = x;
  } else {
    p->_M_right = x;
    if (p == header._M_right) header._M_right = x;
  }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &header) throw() {
  if (header._M_left == z) header._M_left = inc(z);
  if (header._M_right == z) header._M_right = (header._M_left == &header) ? &header : dec(z);
  auto repl = [&](_Rb_tree_node_base *o, _Rb_tree_node_base *n) {
    if (header._M_parent == o) header._M_parent = n;
    else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n;
    else o->_M_parent->_M_right = n;
    if (n) n->_M_parent = o->_M_parent;
  };
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else {
    _Rb_tree_node_base *y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) {
      repl(y, y->_M_right);
      y->_M_right = z->_M_right;
      y->_M_right->_M_parent = y;
    }
    repl(z, y);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
  }
  return z;
}
// ---------------------------------------------------------------- unordered containers
size_t _Hash_bytes(const void *p, size_t n, size_t seed) {
  const unsigned char *c = (const unsigned char *)p;
  size_t h = seed;
  for (size_t i = 0; i < n; i++) h = h * 31 + c[i];
  return h;
}
} // namespace std
#include <unordered_map>
namespace std { namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  size_t r = 13;
  while (r < n) r = r * 2 + 1;
  _M_next_resize = r;
  return r;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize || nb < 13) {
    size_t r = _M_next_bkt(ne + ni > nb * 2 ? ne + ni : nb * 2);
    if (r > nb) return {true, r};
  }
  return {false, 0};
}
}} // namespace std::__detail

// ---------------------------------------------------------------- libc
// branch-free, so that they stay single terms over the byte
#define IN(lo, hi) ((unsigned)(c) - (unsigned)(lo) <= (unsigned)((hi) - (lo)))
extern "C" {
int sxm_isspace(int c) { return (int)((c == 32) | IN(9, 13)); }
int sxm_isblank(int c) { return (int)((c == 32) | (c == 9)); }
int sxm_isdigit(int c) { return (int)IN('0', '9'); }
int sxm_isupper(int c) { return (int)IN('A', 'Z'); }
int sxm_islower(int c) { return (int)IN('a', 'z'); }
int sxm_isalpha(int c) { return (int)(IN('A', 'Z') | IN('a', 'z')); }
int sxm_isalnum(int c) { return (int)(IN('A', 'Z') | IN('a', 'z') | IN('0', '9')); }
int sxm_isprint(int c) { return (int)IN(32, 126); }
int sxm_isgraph(int c) { return (int)IN(33, 126); }
int sxm_ispunct(int c) { return (int)(IN(33, 47) | IN(58, 64) | IN(91, 96) | IN(123, 126)); }
int sxm_iscntrl(int c) { return (int)(IN(0, 31) | (c == 127)); }
int sxm_isxdigit(int c) { return (int)(IN('0', '9') | IN('a', 'f') | IN('A', 'F')); }
int sxm_tolower(int c) { return c + (int)(IN('A', 'Z')) * 32; }
int sxm_toupper(int c) { return c - (int)(IN('a', 'z')) * 32; }
int sxm_strcmp(const char *a, const char *b) {
  size_t i = 0;
  while (a[i] && a[i] == b[i]) i++;
  return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}
int sxm_strncmp(const char *a, const char *b, size_t n) {
  size_t i = 0;
  while (i < n && a[i] && a[i] == b[i]) i++;
  return i == n ? 0 : (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}
int sxm_strcasecmp(const char *a, const char *b) {
  size_t i = 0;
  while (a[i] && sxm_tolower((unsigned char)a[i]) == sxm_tolower((unsigned char)b[i])) i++;
  return sxm_tolower((unsigned char)a[i]) - sxm_tolower((unsigned char)b[i]);
}
int sxm_strncasecmp(const char *a, const char *b, size_t n) {
  size_t i = 0;
  while (i < n && a[i] && sxm_tolower((unsigned char)a[i]) == sxm_tolower((unsigned char)b[i])) i++;
  return i == n ? 0 : sxm_tolower((unsigned char)a[i]) - sxm_tolower((unsigned char)b[i]);
}
char *sxm_strchr(const char *s, int ch) {
  for (;; s++) {
    if (*s == (char)ch) return (char *)s;
    if (!*s) return nullptr;
  }
}
char *sxm_strrchr(const char *s, int ch) {
  char *r = nullptr;
  for (;; s++) {
    if (*s == (char)ch) r = (char *)s;
    if (!*s) return r;
  }
}
size_t sxm_strspn(const char *s, const char *set) {
  size_t i = 0;
  for (; s[i]; i++) {
    bool in = false;
    for (const char *p = set; *p; p++) in |= *p == s[i];
    if (!in) break;
  }
  return i;
}
size_t sxm_strcspn(const char *s, const char *set) {
  size_t i = 0;
  for (; s[i]; i++) {
    bool in = false;
    for (const char *p = set; *p; p++) in |= *p == s[i];
    if (in) break;
  }
  return i;
}
char *sxm_strcpy(char *d, const char *s) {
  size_t i = 0;
  while ((d[i] = s[i])) i++;
  return d;
}
char *sxm_strncpy(char *d, const char *s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
static unsigned digval(unsigned char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'z') return c - 'a' + 10;
  if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
  return 99;
}
static unsigned long strtoul_(const char *s, char **end, int base, bool &neg, bool &ovf) {
  const char *p = s;
  while (sxm_isspace((unsigned char)*p)) p++;
  neg = false;
  ovf = false;
  if (*p == '-' || *p == '+') {
    neg = *p == '-';
    p++;
  }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digval(p[2]) < 16) {
    p += 2;
    base = 16;
  } else if (base == 0)
    base = *p == '0' ? 8 : 10;
  const char *st = p;
  unsigned long v = 0;
  while (true) {
    unsigned d = base == 10 ? (unsigned)(unsigned char)*p - '0' : digval(*p);
    if (d >= (unsigned)base) break;
    if (p - st > 17) ovf = true; // longer than any value the bounded harnesses produce
    v = v * base + d;
    p++;
  }
  if (end) *end = (char *)(p == st ? s : p);
  return v;
}
long sxm_strtol(const char *s, char **end, int base) {
  bool n, o;
  unsigned long v = strtoul_(s, end, base, n, o);
  if (o) {
    errno = ERANGE;
    return n ? LONG_MIN : LONG_MAX;
  }
  return n ? -(long)v : (long)v;
}
unsigned long sxm_strtoul(const char *s, char **end, int base) {
  bool n, o;
  unsigned long v = strtoul_(s, end, base, n, o);
  if (o) {
    errno = ERANGE;
    return ULONG_MAX;
  }
  return n ? -v : v;
}
long sxm___isoc23_strtol(const char *s, char **end, int base) { return sxm_strtol(s, end, base); }
unsigned long sxm___isoc23_strtoul(const char *s, char **end, int base) { return sxm_strtoul(s, end, base); }
long long sxm___isoc23_strtoll(const char *s, char **end, int base) { return sxm_strtol(s, end, base); }
unsigned long long sxm___isoc23_strtoull(const char *s, char **end, int base) { return sxm_strtoul(s, end, base); }
int sxm_atoi(const char *s) { return (int)sxm_strtol(s, nullptr, 10); }
long sxm_atol(const char *s) { return sxm_strtol(s, nullptr, 10); }
} // extern C
#undef IN

// ---------------------------------------------------------------- ostream
sx_fake_stream sx_cerr __asm__("_ZSt4cerr");
sx_fake_stream sx_cout __asm__("_ZSt4cout");
namespace {
struct InitStd {
  InitStd() {
    sx_cerr.init(nullptr);
    sx_cout.init(nullptr);
  }
};
InitStd initStd __attribute__((init_priority(101)));
}
static void put_(std::ostream &os, const char *p, long n) {
  sx_fake_stream *f = (sx_fake_stream *)&os;
  if (!f->sink) {
    f->set_width(0);
    return;
  }
  long w = f->width(), pad = w > n ? w - n : 0;
  if (pad && !f->left()) f->sink->append((size_t)pad, f->fill());
  f->sink->append(p, (size_t)n);
  if (pad && f->left()) f->sink->append((size_t)pad, f->fill());
  f->set_width(0);
}
static void num_(std::ostream &os, unsigned long v, bool neg) {
  char b[24];
  int i = 24;
  do {
    b[--i] = (char)('0' + v % 10);
    v /= 10;
  } while (v);
  if (neg) b[--i] = '-';
  put_(os, b + i, 24 - i);
}
#define OS "St13basic_ostreamIcSt11char_traitsIcEE"
extern "C" {
std::ostream &m_ins(std::ostream &os, const char *p, long n) __asm__("sxm__ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
std::ostream &m_ins(std::ostream &os, const char *p, long n) { put_(os, p, n); return os; }
std::ostream &m_cs(std::ostream &os, const char *p) __asm__("sxm__ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc");
std::ostream &m_cs(std::ostream &os, const char *p) { put_(os, p, (long)strlen(p)); return os; }
std::ostream &m_c(std::ostream &os, char c) __asm__("sxm__ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c");
std::ostream &m_c(std::ostream &os, char c) { put_(os, &c, 1); return os; }
std::ostream &m_endl(std::ostream &os) __asm__("sxm__ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_");
std::ostream &m_endl(std::ostream &os) { char c = '\n'; ((sx_fake_stream *)&os)->set_width(0); put_(os, &c, 1); return os; }
std::ostream &m_put(std::ostream &os, char c) __asm__("sxm__ZNSo3putEc");
std::ostream &m_put(std::ostream &os, char c) { long w = ((sx_fake_stream *)&os)->width(); ((sx_fake_stream *)&os)->set_width(0); put_(os, &c, 1); ((sx_fake_stream *)&os)->set_width(w); return os; }
std::ostream &m_write(std::ostream &os, const char *p, long n) __asm__("sxm__ZNSo5writeEPKcl");
std::ostream &m_write(std::ostream &os, const char *p, long n) { ((sx_fake_stream *)&os)->set_width(0); put_(os, p, n); return os; }
std::ostream &m_flush(std::ostream &os) __asm__("sxm__ZNSo5flushEv");
std::ostream &m_flush(std::ostream &os) { return os; }
std::ostream &m_int(std::ostream &os, int v) __asm__("sxm__ZNSolsEi");
std::ostream &m_int(std::ostream &os, int v) { num_(os, v < 0 ? 0ul - (unsigned long)(long)v : (unsigned long)v, v < 0); return os; }
std::ostream &m_short(std::ostream &os, short v) __asm__("sxm__ZNSolsEs");
std::ostream &m_short(std::ostream &os, short v) { return m_int(os, v); }
std::ostream &m_ul(std::ostream &os, unsigned long v) __asm__("sxm__ZNSo9_M_insertImEERSoT_");
std::ostream &m_ul(std::ostream &os, unsigned long v) { num_(os, v, false); return os; }
std::ostream &m_l(std::ostream &os, long v) __asm__("sxm__ZNSo9_M_insertIlEERSoT_");
std::ostream &m_l(std::ostream &os, long v) { num_(os, v < 0 ? 0ul - (unsigned long)v : (unsigned long)v, v < 0); return os; }
std::ostream &m_b(std::ostream &os, bool v) __asm__("sxm__ZNSo9_M_insertIbEERSoT_");
std::ostream &m_b(std::ostream &os, bool v) { num_(os, v, false); return os; }
void m_clear(void *, int) __asm__("sxm__ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate");
void m_clear(void *, int) {}
std::istream &m_getline(std::istream &is, std::string &l, char d) __asm__("sxm__ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_");
// files: what the harness has put at a name; an std::ifstream reads one of them
struct sx_open_file {
  void *vt[4];
  const std::string *source;
  size_t pos;
  char ctype[600];
};
static std::string *sx_files[16];
static int sx_nfiles;
void sx_file(const std::string &name, const std::string &text) {
  sx_files[sx_nfiles] = new std::string(name);
  sx_files[sx_nfiles + 1] = new std::string(text);
  sx_nfiles += 2;
}
void m_ifopen(void *self, const char *name, int) __asm__("sxm__ZNSt14basic_ifstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode");
void m_ifopen(void *self, const char *name, int) {
  sx_open_file *f = new sx_open_file();
  f->vt[0] = (void *)(size_t)256; // offset of the basic_ios subobject
  f->source = nullptr;
  f->pos = 0;
  f->ctype[56] = 1; // _M_widen_ok
  for (int i = 0; i < 256; i++) f->ctype[57 + i] = (char)i;
  *(void ***)self = f->vt + 3;
  *(void **)((char *)self + 256 + 240) = f->ctype;
  *(int *)((char *)self + 256 + 32) = 0;
  size_t n = strlen(name);
  for (int i = 0; i < sx_nfiles; i += 2) {
    if (sx_files[i]->size() != n) continue;
    unsigned d = 0;
    for (size_t k = 0; k < n; k++) d |= (unsigned)(unsigned char)(name[k] ^ (*sx_files[i])[k]);
    if (!d) f->source = sx_files[i + 1];
  }
  if (!f->source) *(int *)((char *)self + 256 + 32) = 4;
}
void *m_ifclose(void *fb) __asm__("sxm__ZNSt13basic_filebufIcSt11char_traitsIcEE5closeEv");
void *m_ifclose(void *fb) { return fb; }
void m_ifdtor(void *self, void *) __asm__("sxm__ZNSt14basic_ifstreamIcSt11char_traitsIcEED2Ev");
void m_ifdtor(void *self, void *) { delete (sx_open_file *)(*(void ***)self - 3); }
void m_iosdtor(void *) __asm__("sxm__ZNSt8ios_baseD2Ev");
void m_iosdtor(void *) {}
static std::istream &getline_(std::istream &is, int &st, const std::string &s, size_t &pos, std::string &l, char d) {
  if (st) {
    st |= 4;
    return is;
  }
  l.clear();
  bool any = false;
  while (true) {
    if (pos >= s.size()) {
      st |= any ? 2 : 6;
      return is;
    }
    char c = s[pos++];
    any = true;
    if (c == d) return is;
    l.push_back(c);
  }
}
std::istream &m_getline(std::istream &is, std::string &l, char d) {
  void **vp = *(void ***)&is;
  if ((size_t)vp[-3] == 256) {
    sx_open_file *o = (sx_open_file *)(vp - 3);
    return getline_(is, *(int *)((char *)&is + 256 + 32), *o->source, o->pos, l, d);
  }
  sx_fake_stream *f = (sx_fake_stream *)&is;
  return getline_(is, *(int *)(f->ios + 32), *f->source, f->pos, l, d);
}
void m_libinit() __asm__("sxm__ZSt21ios_base_library_initv");
void m_libinit() {}
}
