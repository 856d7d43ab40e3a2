// Editing one logical line (P09).
#include "edit_util.h"

// a statement laid out in different ways; single: one statement only
static bool FX; // fixed form
static std::string upto(std::string l, size_t n, const char *rest) {
  l.resize(n, ' ');
  return l + rest;
}
static Lines fixed_menu(bool single, bool cmt_lines) {
  std::string g = sx_str(1, " \t", "g");
  switch (sx_choose(single ? 9 : 17, "layout")) {
  case 0: return {"      a =" + g + "b +c"};
  case 1: return {"10    a= b  " + g + " ! it's;"};
  case 2: return {" 1" + sx_str(2, "12 ", "lab") + "  call s(" + sx_str(1, "xy", "v") + ")"};
  case 3: return {"      a = b", "     & + c" + g};
  case 4: return {"      a = f(b, ! one", "     1" + g + "c) ! two"};
  case 5: return {"      endif"};
  case 6: return {upto("      a = b", 72, "SEQ1")};
  case 7: return {upto("  7   a = b", 72, "SEQ1"), upto("     & + c", 72, "SEQ2")};
  case 8:
    if (cmt_lines) return {"      a = b", "c between", "", "     &" + g + "* c ! x", "     1- d"};
    return {"      a = b ! q", "     &" + g + "* c", "     1- d ! r"};
  case 9: return {"      a=1;" + g + "b=2 ; c = 3   ! cc"};
  case 10: return {"      enddo;;" + g + "a=';'; "};
  case 11: return {"10    a = 1; b = ! c1", "     &  2;" + g + "c=3 ! c2"};
  case 12: return {"      a=1;", "c between", "     &b=2"};
  case 13: return {"      ;a=1;b=2" + sx_str(1, " ;", "e")};
  case 14: return {upto("      a=1;;" + g + "b=2", 72, "SEQ1")};
  case 15: return {upto("20    a=1;" + g + "b=2 +", 72, "SEQ1"), upto("     & c; d=3", 72, "SEQ2")};
  default: return {"20    a=1 ;", "     &b=2 ;" + g, "", "     1  c=3 ! l"};
  }
}
static Logical_Line line_of(const Lines &l) { return FX ? Logical_Line(l, 72) : Logical_Line(l); }
static Lines layout_menu(bool single, bool cmt_lines = true) {
  if (FX) return fixed_menu(single, cmt_lines);
  std::string g = sx_str(1, " \t", "g");
  unsigned n = single ? 8 : 17;
  switch (sx_choose(n, "layout")) {
  case 0: return {"  a =" + g + "b +c"};
  case 1: return {"a= b  " + g + " ! it's; &"};
  case 2: return {sx_str(2, "12", "lab") + "  call s(" + sx_str(1, "xy", "v") + ")"};
  case 3: return {"  a = b &", "   + c" + g};
  case 4: return {"  a = f(b, & ! one", "    &" + g + "c) ! two"};
  case 5: return {"  s = 'x;" + sx_str(1, "y!", "v") + "&", "   &z'" + g + "// c"};
  case 6: return {"  endif"};
  case 7:
    if (cmt_lines) return {"a = b &", " ! between", "", "  &" + g + "* c & ! x", "  - d"};
    return {"a = b & ! q", "  &" + g + "* c &", "  - d ! r"};
  case 8: return {"  a=1;" + g + "b=2 ; c = 3   ! cc"};
  case 9: return {" enddo;;" + g + "a=';'; "};
  case 10: return {"10 a = 1; b = & ! c1", "    2;" + g + "c=3 ! c2"};
  case 11: return {"  a=1; &", " ! between", "  b=2"};
  case 12: return {";a=1;b=2" + sx_str(1, " ;", "e")};
  case 13: return {"  x = 'p&", "  &q'; y =" + g + "1"};
  case 14: return {"aa = 1;" + g + "bb = cc&", "&dd ; e=1"};
  case 15: return {"  a=1; s = 'x&", "  &y" + g + "&", "  &z' ; t=2 ! c"};
  default: return {"20 a=1 ; &", "  b=2 ;" + g + "& ! k", "", "  c=3 ! l"};
  }
}
static bool label_of(const Lines &in, int &v) {
  v = 0;
  for (char c : in[0]) {
    if (c < '0' || c > '9') break;
    v = v * 10 + (c - '0');
  }
  return v != 0;
}
struct Before {
  Lines in;
  Seen seen;
  Toks toks;
  int label;
};
static Before before(const Lines &in, const Logical_Line &l) {
  Before b{in, look(in, FX), tokens(l), l.label};
  CHECK(b.seen.ok, "the example is accepted");
  return b;
}
static void beyond(const Logical_Line &l, const Before &b) {
  for (auto &x : b.in) // text beyond the last column stays (as a comment)
    if (FX && x.size() > 72) {
      bool had = false;
      for (auto &y : printed(l)) had |= y.size() > 4 && sx_same(y.substr(y.size() - 4), x.substr(x.size() - 4));
      CHECK(had, "text beyond the last column");
    }
}
// after an edit: the line still prints as exactly these tokens and comments
static void after(const Logical_Line &l, const Before &b, const Toks &want, bool places = true) {
  if (FX) {
    std::string t;
    for (auto &x : b.in) t += x + "/";
    t += " => ";
    for (auto &x : printed(l)) t += x + "/";
    sx_note(t.c_str());
  }
  CHECK(same_list(tokens(l), want), "tokens after the edit");
  CHECK(l.label == b.label, "label after the edit");
  if (places) check_places(l);
  check_stmts(l);
  Seen s = look(printed(l), FX);
  CHECK(s.ok, "the edited line is accepted");
  CHECK(same_list(flat(s), no_semis(want)), "the printed text has other tokens");
  CHECK(same_list(s.comments, b.seen.comments), "a comment is lost or changed");
  CHECK(s.stmts.size() == l.stmts().size(), "the printed text has other statements");
  beyond(l, b);
  CHECK(s.labels.empty() || s.labels[0] == b.label, "the printed label");
}
static TT_SEQ::iterator pick(Logical_Line &l, size_t &i) {
  i = sx_choose((unsigned)l.fragments().size(), "token");
  return std::next(l.fragments().begin(), (long)i);
}
static bool split(const Token_Text &t) { return t.main_txt_line() != t.main_txt_eline(); }
static bool wordy(const std::string &s) { return s[0] >= 'a' && s[0] <= 'z'; }
extern "C" void edit_replace_fragment(int fixed) {
  FX = fixed;
  Logical_Line l(line_of(layout_menu(false)));
  Before b = before(printed(l), l);
  size_t i;
  auto it = pick(l, i);
  sx_assume(!split(*it) && wordy(it->text()));
  static const char *const N[] = {"z", "longer_name", "qq"};
  std::string n = N[sx_choose(3, "new")];
  l.replace_fragment(it, Syntax_Tags::TK_NAME, n);
  Toks w = b.toks;
  w[i] = n;
  CHECK(it->token == Syntax_Tags::TK_NAME, "kind of a replaced token");
  if (i > 0 && b.toks[i] == "if" ) { // the second half of a joined keyword
    CHECK(same_list(tokens(l), w), "tokens after the edit");
    return;
  }
  if (b.toks[i] == "end" || b.toks[i] == "do") {
    CHECK(same_list(tokens(l), w), "tokens after the edit");
    check_places(l);
    return;
  }
  after(l, b, w);
  // a second edit finds everything in place
  size_t j = sx_choose((unsigned)l.fragments().size(), "token 2");
  auto jt = std::next(l.fragments().begin(), (long)j);
  if (!split(*jt) && wordy(jt->text()) && jt->text() != "do" && jt->text() != "end") {
    l.replace_fragment(jt, Syntax_Tags::TK_NAME, "w2");
    w[j] = "w2";
    after(l, b, w);
  }
  sx_cover("replaced");
}
extern "C" void edit_remove_fragment(int fixed) {
  FX = fixed;
  Logical_Line l(line_of(layout_menu(false)));
  Before b = before(printed(l), l);
  size_t i;
  auto it = pick(l, i);
  sx_assume(!split(*it));
  l.remove_fragment(it);
  Toks w = b.toks;
  w.erase(w.begin() + (long)i);
  CHECK(same_list(tokens(l), w), "tokens after the edit");
  check_places(l);
  check_stmts(l);
  // the text left is the text of the tokens left
  std::string a, c;
  for (auto &fl : l.layout())
    if (fl.is_fortran())
      for (char ch : fl.main_txt)
        if (ch != ' ' && ch != '\t') a += ch;
  for (auto &t : w)
    for (char ch : t)
      if (ch != ' ' && ch != '\t') c += ch;
  CHECK(sx_same(a, c), "text after removing a token");
  beyond(l, b);
  sx_cover("removed");
}
extern "C" void edit_insert(int where, int fixed) {
  FX = fixed;
  Logical_Line l(line_of(layout_menu(false)));
  Before b = before(printed(l), l);
  sx_assume(!b.toks.empty());
  static const char *const N[] = {" k1 ", " ('t!') ", " +5 "};
  static const char *const T[][3] = {{"k1", "", ""}, {"(", "'t!'", ")"}, {"+", "5", ""}};
  unsigned k = sx_choose(3, "new");
  size_t i;
  if (where == 0) {
    i = sx_choose((unsigned)l.fragments().size() + 1, "token");
    l.insert_text_before(std::next(l.fragments().begin(), (long)i), N[k]);
  } else {
    auto it = pick(l, i);
    l.insert_text_after(it, N[k]);
    i++;
  }
  Toks w = b.toks;
  for (int q = 2; q >= 0; q--)
    if (*T[k][q]) w.insert(w.begin() + (long)i, T[k][q]);
  after(l, b, w);
  sx_cover("inserted");
}
extern "C" void edit_substr(int fixed) {
  FX = fixed;
  Logical_Line l(line_of(layout_menu(false)));
  Before b = before(printed(l), l);
  sx_assume(!l.stmts().empty());
  size_t s = sx_choose((unsigned)l.stmts().size(), "stmt");
  size_t n = l.stmts()[s].size(), off = 0;
  size_t i = sx_choose((unsigned)n, "from"), m = 1 + sx_choose((unsigned)(n - i), "count");
  TT_Range st = l.stmts()[s];
  for (auto it = l.fragments().begin(); it != st.begin(); ++it) off++;
  auto f = std::next(l.fragments().begin(), (long)(off + i));
  TT_Range r(f, std::next(f, (long)m));
  l.replace_stmt_substr(r, " k1 ");
  Toks w = b.toks;
  w.erase(w.begin() + (long)(off + i), w.begin() + (long)(off + i + m));
  w.insert(w.begin() + (long)(off + i), "k1");
  after(l, b, w);
  sx_cover("substring replaced");
}
static bool all_fortran(const Logical_Line &l) {
  for (auto &x : l.layout())
    if (!x.is_fortran()) return false;
  return true;
}
extern "C" void edit_main_text(int fixed) {
  FX = fixed;
  Lines in = layout_menu(true, false);
  Logical_Line l(line_of(in));
  Before b = before(in, l);
  unsigned n = 1 + sx_choose(4, "lines");
  static const char *const N[] = {"p(q)", "+ r", "- 5", "* k"};
  Lines nt;
  Toks w;
  for (unsigned k = 0; k < n; k++) {
    nt.push_back(N[k]);
    Logical_Line t(std::string("a ") + N[k]);
    Toks x = tokens(t);
    w.insert(w.end(), x.begin() + 1, x.end());
  }
  l.replace_main_text(nt);
  CHECK(l.layout().size() >= n, "lines after the edit");
  after(l, b, w);
  // and again
  n = 1 + sx_choose(4, "lines again");
  Logical_Line t(std::string(n == 1 ? "r = 1" : n == 2 ? "r = 1 + 2" : n == 3 ? "r = 1 + 2 - 3" : "r = 1 + 2 - 3 - 4"));
  nt = {"r = 1", "+ 2", "- 3", "- 4"};
  nt.resize(n);
  sx_assume(all_fortran(l));
  l.replace_main_text(nt);
  after(l, b, tokens(t));
  if (n > in.size()) sx_cover("more lines");
  if (n < in.size()) sx_cover("fewer lines");
}
extern "C" void edit_split(int fixed) {
  FX = fixed;
  Logical_Line l(line_of(layout_menu(false)));
  Before b = before(printed(l), l);
  sx_assume(l.stmts().size() > 1);
  size_t s = sx_choose((unsigned)l.stmts().size(), "stmt");
  Toks w1, w2;
  size_t ns = l.stmts().size(), k = 0;
  for (auto &st : l.stmts()) {
    for (auto it = st.cbegin(); it != st.cend(); ++it) (k <= s ? w1 : w2).push_back(it->text());
    k++;
  }
  Logical_Line rest;
  TT_Range r = l.stmts()[s];
  auto last = r.end();
  bool did = l.split_after(std::prev(last), rest);
  if (s + 1 == ns) {
    // nothing after the last statement but perhaps semicolons
    CHECK(!did || rest.fragments().empty(), "the remainder after the last statement");
    return;
  }
  CHECK(did, "split");
  CHECK(same_list(no_semis(tokens(l)), w1), "tokens before the split");
  CHECK(same_list(no_semis(tokens(rest)), w2), "tokens after the split");
  check_places(l);
  check_places(rest);
  l.init_stmts();
  rest.init_stmts();
  CHECK(l.stmts().size() == s + 1 && rest.stmts().size() == ns - s - 1, "statements of the halves");
  check_stmts(l);
  check_stmts(rest);
  CHECK(l.label == b.label && rest.label == 0, "labels of the halves");
  Lines p = printed(l), q = printed(rest);
  Seen a = look(p, FX), c = look(q, FX);
  CHECK(a.ok && c.ok, "the halves are accepted");
  CHECK(same_list(flat(a), w1) && same_list(flat(c), w2), "the printed halves have other tokens");
  CHECK(a.labels[0] == b.label && c.labels[0] == 0, "the printed labels");
  for (auto &x : c.comments) a.comments.push_back(x);
  CHECK(same_list(a.comments, b.seen.comments), "a comment is lost or changed");
  sx_cover("split");
}
extern "C" void edit_remove_empty(int fixed) {
  FX = fixed;
  Lines in;
  if (sx_choose(2, "kind")) in = layout_menu(false);
  else in = {(FX ? "      " : "") + sx_str(6, "a; =", "t") + " ! c"};
  sx_assume(in[0][FX ? 6 : 0] != '=');
  Logical_Line l(line_of(in));
  Before b = before(in, l);
  Toks w;
  for (auto &st : b.seen.stmts) {
    if (!w.empty()) w.push_back(";");
    for (auto &t : st) w.push_back(t);
  }
  bool had = l.has_empty_statements();
  bool ch = l.remove_empty_statements();
  CHECK(ch == had, "reports whether it removed anything");
  if (w.empty()) {
    sx_cover("nothing left");
    return;
  }
  after(l, b, w);
  CHECK(!l.has_empty_statements(), "empty statements are left");
  if (ch) sx_cover("removed");
}
// a long statement is laid out again without changing it
extern "C" void edit_reflow(int words, int indent) {
  std::string s((size_t)indent, ' ');
  bool lab = sx_choose(2, "label") == 1;
  if (lab) s = "77" + s;
  s += ";; x = 0";
  std::string sp = sx_str(1, " ", "sp");
  for (int i = 0; i < words; i++) {
    switch (i % 4) {
    case 0: s += " + name" + std::to_string(i); break;
    case 1: s += sp + "*f(" + std::to_string(i) + ", b)"; break;
    case 2: s += " // 'lit !; " + std::to_string(i) + "'"; break;
    default: s += "-1.5e3"; break;
    }
  }
  if (sx_choose(2, "cmt")) s += " ! c";
  Lines in{s};
  Logical_Line l(in);
  Before b = before(in, l);
  Toks w(b.toks.begin() + 2, b.toks.end());
  CHECK(l.remove_empty_statements(), "removed");
  after(l, b, w, false);
  sx_cover("reflowed");
}
extern "C" void edit_label() {
  Logical_Line l(line_of(layout_menu(false)));
  Before b = before(printed(l), l);
  static const int V[] = {0, 1, 7, 20, 100, 99999};
  int v = V[sx_choose(6, "label")];
  bool ch = l.set_label(v);
  CHECK(ch == (v != b.label), "reports whether the label changed");
  b.label = v;
  CHECK(l.layout()[0].has_label() == (v != 0), "label flag");
  after(l, b, b.toks);
  // and back
  int u = V[sx_choose(6, "label 2")];
  l.set_label(u);
  b.label = u;
  after(l, b, b.toks);
  sx_cover("label set");
}
extern "C" void edit_label_fixed() {
  static const char *const L[] = {"      a = b", "   10 a = b", "10    a = b ! c", "      if (a) b = 'c'", "    7 a = 1; b = 2", "              a = b", "  110 a=b"};
  Lines in{L[sx_choose(7, "line")]};
  if (sx_choose(2, "cont")) in.push_back("     & + c");
  Logical_Line l(in, 72);
  Toks t = tokens(l);
  Seen s0 = look(in, true);
  static const int V[] = {0, 1, 20, 99999};
  for (int k = 0; k < 2; k++) {
    int v = V[sx_choose(4, "label")];
    bool ch = l.label != v;
    CHECK(l.set_label(v) == ch, "reports whether the label changed");
    CHECK(l.label == v, "label");
    Lines p = printed(l);
    Seen s = look(p, true);
    CHECK(s.ok && !s.labels.empty() && s.labels[0] == v, "printed label (fixed form)");
    CHECK(same_list(flat(s), no_semis(t)), "the printed text has other tokens (fixed form)");
    CHECK(same_list(s.comments, s0.comments), "a comment is lost or changed");
    CHECK(s.stmts.size() == s0.stmts.size(), "statements (fixed form)");
  }
  sx_cover("label set");
}
extern "C" void edit_comment(int fixed) {
  FX = fixed;
  Logical_Line l(line_of(layout_menu(false)));
  Before b = before(printed(l), l);
  l.append_comment("note 1");
  Seen s = look(printed(l), FX);
  CHECK(s.ok && same_list(flat(s), no_semis(b.toks)), "adding a comment changes the statement");
  bool had = false;
  for (auto &c : s.comments) had |= c.size() >= 6 && c.substr(c.size() - 6) == "note 1";
  CHECK(had, "the comment is not there");
  CHECK(s.comments.size() >= b.seen.comments.size() && s.comments.size() <= b.seen.comments.size() + 1, "comments after adding one");
  sx_cover("comment added");
}
