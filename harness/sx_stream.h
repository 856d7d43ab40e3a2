// A stand-in for std::ostream objects under symbolic execution: it has the
// layout inlined libstdc++ code relies on (virtual-base offset, width, flags,
// ctype pointer) and appends what is written to a std::string,
// or reads the lines of one.
#pragma once
#include <istream>
#include <ostream>
#include <string>
struct sx_fake_stream {
  void **vptr;
  char ios[264]; // the std::basic_ios<char> subobject
  std::string *sink;
  const std::string *source;
  size_t pos;
  void *vt[5];
  char ctype[600];
  void init(std::string *s) {
    for (size_t i = 0; i < sizeof ios; i++) ios[i] = 0;
    sink = s;
    source = nullptr;
    pos = 0;
    for (int i = 0; i < 5; i++) vt[i] = nullptr;
    vt[0] = (void *)(size_t)8; // offset of the basic_ios subobject
    vptr = vt + 3;
    for (size_t i = 0; i < sizeof ctype; i++) ctype[i] = 0;
    ctype[56] = 1;                               // _M_widen_ok
    for (int i = 0; i < 256; i++) ctype[57 + i] = (char)i; // _M_widen
    *(int *)(ios + 24) = 0x1002;                 // flags: skipws|dec
    *(void **)(ios + 240) = ctype;
    ios[224] = ' ';
    ios[225] = 1; // _M_fill_init
  }
  void set_state(int b) { *(int *)(ios + 32) |= b; }
  int state() const { return *(const int *)(ios + 32); }
  long width() const { return *(const long *)(ios + 16); }
  void set_width(long w) { *(long *)(ios + 16) = w; }
  bool left() const { return (*(const int *)(ios + 24) & 0xb0) == 0x20; }
  char fill() const { return ios[224]; }
};
