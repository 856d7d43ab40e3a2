// Harness interface.  The same harness source is (a) compiled to bitcode and
// executed symbolically by engine/sx, (b) compiled natively and driven by
// replay.cc with the concrete values of a counterexample.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <list>
#include <ostream>
#include <sstream>
#include <string>
#include <vector>
#include "sx_stream.h"
extern "C" {
void sx_symbolic(void *p, size_t n, const char *name);
void sx_assume(bool);
void sx_assume_in(int c, const char *set, size_t n);
void sx_assert(bool, const char *msg);
void sx_cover(const char *label);
uint64_t sx_concretize(uint64_t);
void sx_note(const char *);
void sx_allow_abort(int);
}
#define CHECK(c, m) sx_assert((c), m)

// a value in [0,n), split into one path per value
static inline unsigned sx_choose(unsigned n, const char *name) {
  unsigned char b;
  sx_symbolic(&b, 1, name);
  sx_assume(b < n);
  return (unsigned)sx_concretize(b);
}
// one of the characters of a set, kept symbolic
static inline char sx_char(const char *set, size_t n, const char *name) {
  char c;
  sx_symbolic(&c, 1, name);
  sx_assume_in((unsigned char)c, set, n);
  return c;
}
// a string of exactly n characters drawn from the set
static inline std::string sx_str(size_t n, const char *set, const char *name) {
  std::string s(n, 'x');
  if (n) {
    sx_symbolic(&s[0], n, name);
    size_t m = strlen(set);
    for (size_t i = 0; i < n; i++) sx_assume_in((unsigned char)s[i], set, m);
  }
  return s;
}
static inline std::string sx_str_upto(size_t maxn, const char *set, const char *name) {
  unsigned n = sx_choose((unsigned)maxn + 1, name);
  return sx_str(n, set, name);
}
// a file of this name and content (natively: in the working directory)
#ifdef SX_NATIVE
#include <fstream>
static inline void sx_file(const std::string &name, const std::string &text) {
  std::ofstream o(name, std::ios::binary);
  o << text;
  sx_assume((bool)o.flush());
}
#else
extern "C" void sx_file(const std::string &name, const std::string &text);
#endif
// output capture
#ifdef SX_NATIVE
struct SxIn {
  std::istringstream i;
  explicit SxIn(const std::string &t) : i(t) {}
  std::istream &is() { return i; }
};
struct SxOut {
  std::ostringstream o;
  std::ostream &os() { return o; }
  std::string str() { return o.str(); }
};
#else
struct SxIn {
  sx_fake_stream f;
  std::string s;
  explicit SxIn(const std::string &t) : s(t) {
    f.init(nullptr);
    f.source = &s;
  }
  std::istream &is() { return *(std::istream *)(void *)&f; }
};
struct SxOut {
  sx_fake_stream f;
  std::string s;
  SxOut() { f.init(&s); }
  std::ostream &os() { return *(std::ostream *)(void *)&f; }
  std::string str() { return s; }
};
#endif
// equality of strings whose length is concrete, without branching per byte
static inline bool sx_same(const std::string &a, const std::string &b) {
  if (a.size() != b.size()) return false;
  unsigned char d = 0;
  for (size_t i = 0; i < a.size(); i++) d |= (unsigned char)(a[i] ^ b[i]);
  return d == 0;
}
