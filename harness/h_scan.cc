// Scanning and re-emitting a file (P01 free form, P02 fixed form).
#include "sx.h"
#include "flpr/File_Line.hh"
#include "flpr/Logical_File.hh"
using namespace FLPR;
using Lines = std::vector<std::string>;

static std::string join(const Lines &l) {
  std::string r;
  for (auto &s : l) {
    r += s;
    r += '\n';
  }
  return r;
}
static std::string emit(Logical_File &f) {
  SxOut o;
  for (auto &l : f.lines) o.os() << l;
  return o.str();
}
// every physical line is in exactly one logical line, in order
static void check_cover(Logical_File &f, size_t n) {
  size_t at = 0;
  for (auto &l : f.lines) {
    CHECK(!l.layout().empty(), "a logical line without physical lines");
    for (auto &fl : l.layout()) {
      at++;
      CHECK(fl.linenum == (int)at, "physical lines lost, duplicated or reordered");
    }
  }
  CHECK(at == n, "number of physical lines changed");
  CHECK(f.num_input_lines == n, "wrong count of input lines");
}
static void roundtrip_free(const Lines &in) {
  Logical_File f;
  bool ok = f.scan(in, "t.f90", 0, File_Type::FREEFMT);
  if (!ok) {
    sx_cover("rejected");
    return;
  }
  check_cover(f, in.size());
  CHECK(sx_same(emit(f), join(in)), "printing a scanned free-form file does not reproduce it");
  for (auto &l : f.lines)
    for (auto &fl : l.layout()) {
      if (fl.is_comment()) sx_cover("comment");
      if (fl.is_blank()) sx_cover("blank");
      if (fl.has_label()) sx_cover("label");
      if (fl.is_continued() && !fl.is_comment()) sx_cover("continued");
      if (fl.is_continuation()) sx_cover("continuation");
      if (fl.open_delim) sx_cover("open string");
      if (fl.is_preprocessor()) sx_cover("preprocessor");
      if (fl.is_include()) sx_cover("include");
      if (fl.is_flpr_lit()) sx_cover("literal");
      if (fl.is_flpr_pp()) sx_cover("flpr directive");
    }
}
// only a string left open without a continuation may make the scan fail
static void must_accept_free(const Lines &in) {
  Logical_File f;
  CHECK(f.scan(in, "t.f90", 0, File_Type::FREEFMT), "a well-formed file is rejected");
}

static const char *ALPHA = " \ta1&!'\";#";
extern "C" void free_raw(int n, int m, int k) {
  Lines in;
  in.push_back(sx_str((size_t)n, ALPHA, "l1"));
  if (m >= 0) in.push_back(sx_str((size_t)m, " a&!'", "l2"));
  if (k >= 0) in.push_back(sx_str((size_t)k, " a&!'", "l3"));
  roundtrip_free(in);
}
// arbitrary bytes (anything but a line terminator) in each position
extern "C" void free_bytes(int n) {
  std::string s((size_t)n, 'x');
  sx_symbolic(&s[0], (size_t)n, "l");
  for (char c : s) sx_assume(c != '\n' && c != '\0');
  roundtrip_free({s});
}
// lines assembled from a menu of parts with symbolic holes
static std::string pad(const char *nm) {
  static const char *const W[] = {"", " ", "\t", "   "};
  return W[sx_choose(4, nm)];
}
static std::string free_line(bool small) {
  switch (sx_choose(small ? 9 : 16, "shape")) {
  case 0: return pad("in") + "x = " + sx_str(1, "a1", "v") + pad("tr");
  case 1: return pad("in") + "x = " + sx_str(1, "a1", "v") + pad("g") + "&" + pad("tr");
  case 2: return pad("in") + "& + b" + pad("tr");
  case 3: return pad("in") + "! " + sx_str(2, " a&'!", "c");
  case 4: return pad("in");
  case 5: return pad("in") + "s = 'a" + sx_str(1, "!&\" a", "h") + "&" + pad("tr");
  case 6: return pad("in") + "&" + sx_str(1, "!&\" a'", "h") + "b'" + pad("g") + "! " + sx_str(1, "&'a", "c");
  case 7: return sx_str(1, "12", "lab") + pad("in") + "x=1;" + pad("g") + sx_str(1, "y;", "t");
  case 8: return "#if " + sx_str(1, "a\\&", "p") + sx_str(1, " \\a", "q");
  case 9: return "&" + pad("g") + "&";
  case 10: return pad("in") + "include 'f" + sx_str(1, "a'!", "p") + "'";
  case 11: return pad("in") + "!#flpr " + sx_str(2, "ab", "p");
  case 12: return pad("in") + "!#flpr--- literal" + sx_str(1, " x", "p");
  case 13: return pad("in") + "call s(\"a" + sx_str(1, "!&' ", "h") + "\")" + pad("g") + "!" + sx_str(1, "&\"", "c");
  case 14: return sx_str(5, "12", "lab") + pad("in") + "end";
  default: return pad("in") + "x = 1 & ! " + sx_str(1, "&'a", "c");
  }
}
extern "C" void free_menu(int k, int small) {
  Lines in;
  for (int i = 0; i < k; i++) in.push_back(free_line(small != 0));
  roundtrip_free(in);
}
// long lines: a symbolic stretch after `len` characters of text
extern "C" void free_long(int len, int n) {
  static const char *const T[] = {"a+", " ", "'b'//", "f(x) "};
  std::string t = T[sx_choose(4, "fill")], s = "  x = ";
  while (s.size() < (size_t)len) s += t;
  roundtrip_free({s + sx_str((size_t)n, " a&!'", "e"), sx_str(1, " &'", "f") + t});
}
// a statement over many lines with comments in between
extern "C" void free_many(int k) {
  Lines in{"  call s( a &"};
  std::string mid = sx_str(1, " &", "m"), c = sx_str(1, "!& ", "c");
  for (int i = 0; i < k; i++) {
    in.push_back(mid + "  , b" + std::to_string(i) + " &" + (i % 3 == 1 ? " ! note" : ""));
    if (i % 4 == 2) in.push_back(c);
  }
  in.push_back(" & )" + sx_str(1, " ;!", "e"));
  in.push_back("end");
  roundtrip_free(in);
  Logical_File f;
  if (f.scan(in, "t.f90", 0, File_Type::FREEFMT) && c[0] != '&') CHECK(f.lines.size() == 2, "a long statement is cut");
}

// ------------------------------------------------------------------ fixed form
// What the documentation allows to change: tabs in the control columns are
// expanded, blanks after the last character of a statement cut at last_col,
// text beyond the last column gets a comment marker.
// A statement line that keeps to the fixed-form columns: 1-5 hold blanks or one
// label, 6 a blank, a zero or a continuation mark, and the text starts after.
static bool conforming(const std::string &s) {
  if (s.size() < 7) return false;
  size_t i = 0;
  while (i < 5 && s[i] == ' ') i++;
  size_t lab = i;
  while (i < 5 && s[i] >= '0' && s[i] <= '9') i++;
  if (i != lab && s[5] != ' ') return false;
  while (i < 5 && s[i] == ' ') i++;
  return i == 5;
}
static std::string unblank(const std::string &s) {
  std::string r;
  for (char c : s)
    if (c != ' ' && c != '\t') r += c;
  return r;
}
static void roundtrip_fixed(const Lines &in, int last) {
  Logical_File f;
  bool ok = f.scan(in, "t.f", last, File_Type::FIXEDFMT);
  if (!ok) {
    sx_cover("rejected");
    return;
  }
  check_cover(f, in.size());
  std::string want;
  size_t at = 0;
  for (auto &l : f.lines) {
    for (auto &fl : l.layout()) {
      SxOut o;
      o.os() << fl;
      std::string got = o.str(), src = in[at++];
      if (fl.is_comment()) sx_cover("comment");
      if (fl.is_blank()) sx_cover("blank");
      if (fl.has_label()) sx_cover("label");
      if (fl.is_continuation()) sx_cover("continuation");
      if (fl.open_delim) sx_cover("open string");
      if (fl.is_preprocessor()) sx_cover("preprocessor");
      if (last > 0 && src.size() > (size_t)last && fl.is_fortran()) {
        // beyond the last column
        std::string head = src.substr(0, (size_t)last), tail = src.substr((size_t)last);
        CHECK(got.size() >= head.size() || sx_same(got, head.substr(0, got.size())), "text before the last column changed");
        if (got.size() > head.size()) {
          CHECK(sx_same(got.substr(0, head.size()), head), "text before the last column changed");
          std::string rest = got.substr(head.size());
          size_t m = tail.find_first_not_of(" \t\r");
          if (m != std::string::npos && (tail[m] == '!' || tail[m] == '&')) CHECK(sx_same(rest, tail), "marked text beyond the last column changed");
          else CHECK(sx_same(rest, tail) || sx_same(rest, "! " + tail), "text beyond the last column changed");
          sx_cover("beyond the last column");
        } else
          for (size_t i = got.size(); i < src.size(); i++) CHECK(src[i] == ' ' || src[i] == '\t' || src[i] == '\r', "text lost");
      } else if (!fl.is_fortran() || conforming(src)) {
        CHECK(sx_same(got, src), "printing a scanned fixed-form line does not reproduce it");
        if (fl.is_fortran()) sx_cover("conforming statement");
      } else {
        // statement text in the control columns: may be moved, not changed
        CHECK(sx_same(unblank(got), unblank(src)), "printing a scanned fixed-form line changes its text");
        sx_cover("text in the control columns");
      }
    }
  }
}
extern "C" void fixed_raw(int n, int m, int last) {
  // n symbolic characters after `m` fixed blanks
  Lines in;
  in.push_back(std::string((size_t)m, ' ') + sx_str((size_t)n, " a1!'c*&", "l1"));
  roundtrip_fixed(in, last);
}
static std::string fixed_line() {
  switch (sx_choose(12, "shape")) {
  case 0: return "      x = " + sx_str(1, "a1", "v") + pad("tr");
  case 1: return "     " + sx_str(1, "&1.a!", "cc") + " + b" + pad("tr");
  case 2: return sx_str(1, "cC*!", "c") + " " + sx_str(2, " a&'!", "t");
  case 3: return "";
  case 4: return "      s = 'a" + sx_str(1, "!&\" a", "h");
  case 5: return "     &" + sx_str(1, "!\" a'", "h") + "b' ! " + sx_str(1, "&'a", "c");
  case 6: return sx_str(1, "12", "lab") + "0    x=1;" + sx_str(1, "y;", "t");
  case 7: return "#if " + sx_str(1, "a\\&", "p") + sx_str(1, " \\a", "q");
  case 8: return "      include 'f" + sx_str(1, "a'!", "p") + "'";
  case 9: return "   ! " + sx_str(1, "a'", "p");
  case 10: return "  " + sx_str(3, "12 ", "lab") + "0x = 1" + pad("g") + "! c";
  default: return "     " + sx_str(1, " 0", "cc") + "  call s(\"a" + sx_str(1, "!&' ", "h") + "\")";
  }
}
extern "C" void fixed_menu(int k, int last) {
  Lines in;
  for (int i = 0; i < k; i++) in.push_back(fixed_line());
  roundtrip_fixed(in, last);
}
// lines that reach and cross the last column
extern "C" void fixed_long(int around, int last) {
  std::string s = "      x = ";
  while (s.size() + 3 < (size_t)(last + around)) s += 'a';
  s += sx_str(3, " a!&'", "e");
  roundtrip_fixed({s}, last);
}
