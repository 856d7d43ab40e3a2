// Reference reading of Fortran source lines, written from the language rules and
// the documented line classes, independently of the implementation.
#pragma once
#include "sx.h"
#include "flpr/File_Line.hh"
#include "flpr/Logical_File.hh"
using Lines = std::vector<std::string>;

struct RefLine {
  enum Kind { BLANK, COMMENT, CPP, INCLUDE, DIRECTIVE, LITERAL, STMT, ERROR } kind = BLANK;
  std::string left, lsp, body, rsp, right; // the five fields
  bool labelled = false, amp_in = false, amp_out = false;
  char open = '\0';
};
static inline bool ref_ws(char c) { return c == ' ' || c == '\t' || c == '\r'; }
static inline size_t ref_first(const std::string &s) {
  size_t i = 0;
  while (i < s.size() && ref_ws(s[i])) i++;
  return i;
}
static inline bool ref_prefix(const std::string &s, size_t at, const char *w, bool nocase) {
  for (; *w; w++, at++) {
    if (at >= s.size()) return false;
    char c = s[at];
    if (nocase && c >= 'A' && c <= 'Z') c = (char)(c + 32);
    if (c != *w) return false;
  }
  return true;
}
static inline bool ref_include(const std::string &s, size_t i) {
  if (!ref_prefix(s, i, "include", true)) return false;
  i += 7;
  while (i < s.size() && s[i] == ' ') i++;
  return i < s.size() && (s[i] == '\'' || s[i] == '"');
}
// split text into body, blanks, and the rest
static inline void ref_trim(RefLine &r, std::string txt) {
  size_t e = txt.size();
  if (!r.open)
    while (e > 0 && (txt[e - 1] == ' ' || txt[e - 1] == '\t')) e--;
  r.body = txt.substr(0, e);
  r.rsp = txt.substr(e);
}
static inline RefLine ref_free(const std::string &s, char ctx, bool cont, bool &lit) {
  RefLine r;
  size_t i = ref_first(s);
  if (lit) {
    r.kind = RefLine::LITERAL;
    r.left = s;
    if (i < s.size() && s[i] == '!' && ref_prefix(s, i, "!#flpr", false) && ref_prefix(s, i + 9, " literal", false)) lit = false;
    return r;
  }
  if (i == s.size()) {
    r.kind = RefLine::BLANK;
    r.left = s;
    return r;
  }
  r.left = s;
  if (s[0] == '#') {
    r.kind = RefLine::CPP;
    return r;
  }
  if (ref_include(s, i)) {
    r.kind = RefLine::INCLUDE;
    return r;
  }
  if (s[i] == '!') {
    if (ref_prefix(s, i, "!#flpr", false)) {
      r.kind = RefLine::DIRECTIVE;
      if (ref_prefix(s, i + 9, " literal", false)) {
        r.kind = RefLine::LITERAL;
        lit = true;
      }
    } else {
      r.kind = RefLine::COMMENT;
      r.amp_out = cont;
    }
    return r;
  }
  r.kind = RefLine::STMT;
  size_t b = 0; // where the left margin ends
  if (!cont && s[i] >= '0' && s[i] <= '9') {
    while (i < s.size() && s[i] >= '0' && s[i] <= '9') i++;
    r.labelled = true;
    b = i;
    while (i < s.size() && ref_ws(s[i])) i++;
  } else if (s[i] == '&') {
    r.amp_in = true;
    b = ++i;
  }
  r.left = s.substr(0, b);
  r.lsp = s.substr(b, i - b);
  size_t j = i;
  for (; j < s.size(); j++) {
    char c = s[j];
    if (ctx) {
      if (c == ctx) ctx = '\0';
      else if (c == '&') {
        size_t k = j + 1;
        while (k < s.size() && ref_ws(s[k])) k++;
        if (k == s.size()) break;
      }
    } else if (c == '\'' || c == '"') ctx = c;
    else if (c == '!' || c == '&') break;
  }
  if (j == s.size() && ctx) {
    r.kind = RefLine::ERROR;
    return r;
  }
  r.open = ctx;
  r.right = s.substr(j);
  r.amp_out = j < s.size() && s[j] == '&';
  ref_trim(r, s.substr(i, j - i));
  return r;
}
// fixed form; s keeps to the columns (see ref_fixed_ok), no tabs in columns 1-6
static inline bool ref_fixed_ok(const std::string &s) {
  size_t i = ref_first(s);
  if (i == s.size()) return true;
  if (i != 5) {
    if (s[0] == '#' || s[0] == 'c' || s[0] == 'C' || s[0] == '*' || s[i] == '!') return true;
    if (ref_include(s, i)) return true;
  }
  if (s.size() < 7) return false;
  size_t k = 0;
  while (k < 5 && s[k] == ' ') k++;
  size_t lab = k;
  while (k < 5 && s[k] >= '0' && s[k] <= '9') k++;
  if (k != lab && s[5] != ' ' && s[5] != '0') return false;
  while (k < 5 && s[k] == ' ') k++;
  if (k != 5) return false;
  // some statement text
  for (size_t q = 6; q < s.size(); q++)
    if (!ref_ws(s[q])) return s[q] != '!';
  return false;
}
static inline RefLine ref_fixed(const std::string &s, char ctx, int last) {
  RefLine r;
  r.left = s;
  size_t i = ref_first(s);
  if (i == s.size()) return r;
  if (i != 5) {
    r.kind = s[0] == '#' ? RefLine::CPP : ref_include(s, i) ? RefLine::INCLUDE : RefLine::STMT;
    if (r.kind != RefLine::STMT) return r;
    if (s[i] == '!' || s[0] == 'c' || s[0] == 'C' || s[0] == '*') {
      r.kind = ref_prefix(s, i + 1, "#flpr", false) ? RefLine::DIRECTIVE : RefLine::COMMENT;
      return r;
    }
  }
  r.kind = RefLine::STMT;
  r.left = "";
  if (i < 5) { // a label
    size_t k = i;
    while (k < 5 && s[k] >= '0' && s[k] <= '9') k++;
    r.left = s.substr(0, s[5] == '0' ? 6 : k);
    r.labelled = true;
  } else if (i == 5) {
    r.left = s.substr(0, 6);
    r.amp_in = s[5] != '0';
  }
  if (!r.amp_in) ctx = '\0';
  i = 6;
  if (!ctx)
    while (ref_ws(s[i])) i++;
  r.lsp = s.substr(6, i - 6);
  size_t lim = last > 0 && (size_t)last < s.size() ? (size_t)last : s.size();
  size_t j = i;
  for (; j < lim; j++) {
    char c = s[j];
    if (ctx) {
      if (c == ctx) ctx = '\0';
    } else if (c == '\'' || c == '"') ctx = c;
    else if (c == '!') break;
  }
  r.open = j < lim ? '\0' : ctx;
  r.right = s.substr(j);
  if (j == lim && lim < s.size()) { // text beyond the last column is commentary
    size_t k = ref_first(r.right);
    if (k == r.right.size()) r.right = "";
    else if (r.right[k] != '!' && r.right[k] != '&') r.right = "! " + r.right;
  }
  ref_trim(r, s.substr(i, j - i));
  return r;
}
static inline void ref_compare(const FLPR::File_Line &f, const RefLine &r, bool fixed) {
  CHECK(f.is_blank() == (r.kind == RefLine::BLANK), "blank line classification");
  CHECK(f.is_comment() == (r.kind == RefLine::COMMENT), "comment line classification");
  CHECK(f.is_preprocessor() == (r.kind == RefLine::CPP), "preprocessor line classification");
  CHECK(f.is_include() == (r.kind == RefLine::INCLUDE), "include line classification");
  CHECK(f.is_flpr_pp() == (r.kind == RefLine::DIRECTIVE), "directive line classification");
  CHECK(f.is_flpr_lit() == (r.kind == RefLine::LITERAL), "literal block classification");
  CHECK(f.is_fortran() == (r.kind == RefLine::STMT), "statement line classification");
  CHECK(f.is_fixed_format() == fixed, "source form of the line");
  CHECK(f.has_label() == r.labelled, "label flag");
  CHECK(f.is_continuation() == r.amp_in, "leading continuation flag");
  CHECK(f.is_continued() == r.amp_out, "trailing continuation flag");
  CHECK(f.open_delim == r.open, "open character context");
  CHECK(sx_same(f.left_txt, r.left), "text before the body");
  CHECK(sx_same(f.left_space, r.lsp), "blanks before the body");
  CHECK(sx_same(f.main_txt, r.body), "statement body");
  CHECK(sx_same(f.right_space, r.rsp), "blanks after the body");
  CHECK(sx_same(f.right_txt, r.right), "text after the body");
}
static inline void ref_covers(const RefLine &r) {
  static const char *const K[] = {"blank", "comment", "cpp", "include", "directive", "literal", "statement", "error"};
  sx_cover(K[r.kind]);
  if (r.labelled) sx_cover("label");
  if (r.amp_in) sx_cover("leading continuation");
  if (r.amp_out && r.kind == RefLine::STMT) sx_cover("trailing continuation");
  if (r.open) sx_cover("open character context");
  if (r.right.size() && r.right[0] == '!') sx_cover("trailing comment");
}
