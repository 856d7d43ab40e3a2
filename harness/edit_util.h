// What a user can see of a file: its statements, their labels, its comments.
#pragma once
#include "ref_lines.h"
#include "flpr/LL_Stmt_Src.hh"
#include "flpr/Logical_File.hh"
using namespace FLPR;
using Toks = std::vector<std::string>;
struct Seen {
  bool ok = false;
  std::vector<Toks> stmts;
  std::vector<int> labels;
  std::vector<std::string> comments; // from the exclamation mark on
  std::vector<std::string> other;    // preprocessor, include, directive lines
};
static Lines split_lines(const std::string &s) {
  Lines r;
  std::string cur;
  for (char c : s)
    if (c == '\n') {
      r.push_back(cur);
      cur.clear();
    } else
      cur += c;
  return r;
}
static Lines printed(const Logical_Line &l) {
  SxOut o;
  o.os() << l;
  return split_lines(o.str());
}
static Lines printed(const Logical_File &f) {
  SxOut o;
  for (auto &l : f.lines) o.os() << l;
  return split_lines(o.str());
}
static std::string rtrim(std::string s) {
  while (!s.empty() && (s.back() == ' ' || s.back() == '\t')) s.pop_back();
  return s;
}
static Seen look(const Lines &in, bool fixed = false, int last = 72) {
  Seen r;
  Logical_File f;
  r.ok = f.scan(in, "t", fixed ? last : 0, fixed ? File_Type::FIXEDFMT : File_Type::FREEFMT);
  if (!r.ok) return r;
  f.make_stmts();
  for (auto &s : f.ll_stmts) {
    Toks t;
    for (auto it = s.begin(); it != s.end(); ++it) t.push_back(it->text());
    r.stmts.push_back(t);
    r.labels.push_back(s.label());
  }
  for (auto &l : f.lines)
    for (auto &fl : l.layout()) {
      SxOut o;
      o.os() << fl;
      if (fl.is_comment()) {
        std::string t = o.str();
        size_t k = 0;
        while (k < t.size() && (t[k] == ' ' || t[k] == '\t')) k++;
        r.comments.push_back("!" + rtrim(t.substr(k + 1)));
      } else if (fl.is_fortran()) {
        size_t k = fl.right_txt.find('!');
        if (k != std::string::npos) r.comments.push_back(rtrim(fl.right_txt.substr(k)));
      } else if (!fl.is_blank())
        r.other.push_back(o.str());
    }
  return r;
}
static bool same_list(const std::vector<std::string> &a, const std::vector<std::string> &b) {
  if (a.size() != b.size()) return false;
  bool ok = true;
  for (size_t i = 0; i < a.size(); i++) ok = ok & sx_same(a[i], b[i]);
  return ok;
}
static Toks tokens(const Logical_Line &l) {
  Toks t;
  for (auto &x : l.fragments()) t.push_back(x.text());
  return t;
}
static Toks flat(const Seen &s) {
  Toks t;
  for (auto &v : s.stmts)
    for (auto &x : v) t.push_back(x);
  return t;
}
static Toks no_semis(const Toks &t) {
  Toks r;
  for (auto &x : t)
    if (!(x.size() == 1 && x[0] == ';')) r.push_back(x);
  return r;
}
// the tokens of a line refer to the text of the line
static void check_places(const Logical_Line &l) {
  auto &lay = l.layout();
  int pl = 0, pc = 0;
  for (auto &t : l.fragments()) {
    int bl = t.main_txt_line(), bc = t.main_txt_col(), el = t.main_txt_eline(), ec = t.main_txt_ecol();
    CHECK(bl >= 0 && bl <= el && el < (int)lay.size(), "token line index in range");
    CHECK(bl > pl || (bl == pl && bc >= pc), "tokens out of order or overlapping");
    std::string got;
    if (bl == el) {
      CHECK(bc >= 0 && bc <= ec && ec <= (int)lay[(size_t)bl].main_txt.size(), "token column in range");
      got = lay[(size_t)bl].main_txt.substr((size_t)bc, (size_t)(ec - bc));
    } else {
      CHECK(bc >= 0 && bc <= (int)lay[(size_t)bl].main_txt.size() && ec >= 0 && ec <= (int)lay[(size_t)el].main_txt.size(), "token column in range");
      got = lay[(size_t)bl].main_txt.substr((size_t)bc);
      for (int k = bl + 1; k < el; k++) got += lay[(size_t)k].main_txt;
      got += lay[(size_t)el].main_txt.substr(0, (size_t)ec);
    }
    CHECK(sx_same(got, t.text()), "the text at a token's location is not the token");
    pl = el;
    pc = ec;
  }
}
// the statements of a line are its runs of tokens between semicolons
static void check_stmts(const Logical_Line &l) {
  std::vector<Toks> want(1);
  for (auto &t : l.fragments())
    if (t.token == Syntax_Tags::TK_SEMICOLON) want.emplace_back();
    else want.back().push_back(t.text());
  size_t k = 0;
  for (auto &w : want) {
    if (w.empty()) continue;
    CHECK(k < l.stmts().size(), "a statement is missing");
    Toks got;
    for (auto it = l.stmts()[k].cbegin(); it != l.stmts()[k].cend(); ++it) got.push_back(it->text());
    CHECK(same_list(got, w), "tokens of a statement");
    k++;
  }
  CHECK(k == l.stmts().size(), "number of statements");
}
