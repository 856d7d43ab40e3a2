// Indentation (P11): lines, statements and whole files.
#include "edit_util.h"
#include "flpr/Indent_Table.hh"
#include "flpr/Parsed_File.hh"
using PF = Parsed_File<>;
static std::string text_of(const File_Line &f) {
  SxOut o;
  o.os() << f;
  return o.str();
}
// blanks between the exclamation mark and the text of a comment may change
static std::string comment_text(const std::string &s) {
  size_t k = 0, e;
  while (k < s.size() && (s[k] == ' ' || s[k] == '\t')) k++;
  std::string r(k < s.size() ? 1 : 0, '!');
  k++;
  while (k < s.size() && (s[k] == ' ' || s[k] == '\t')) k++;
  e = s.size();
  while (e > k && (s[e - 1] == ' ' || s[e - 1] == '\t')) e--;
  if (k < e) r += s.substr(k, e - k);
  return r;
}
static size_t column_of(const std::string &s, size_t from) {
  while (from < s.size() && (s[from] == ' ' || s[from] == '\t')) from++;
  return from;
}
// ---- one line -------------------------------------------------------------
static void line(const std::string &raw, bool fixed, char ctx, bool cont) {
  bool lit = false, lit2 = false;
  RefLine r;
  if (fixed) {
    sx_assume(ref_fixed_ok(raw));
    r = ref_fixed(raw, ctx, 72);
  } else
    r = ref_free(raw, ctx, cont, lit);
  sx_assume(r.kind != RefLine::ERROR);
  // (no statement begins with #, or has no text)
  sx_assume(r.kind != RefLine::STMT || (!r.body.empty() && r.body[0] != '#'));
  File_Line f = fixed ? File_Line::analyze_fixed(1, raw, ctx, 72) : File_Line::analyze_free(1, raw, ctx, cont, lit2);
  std::string before = text_of(f);
  int k = (int)sx_choose(13, "spaces");
  // (what moves beyond the last column is no statement text any more)
  if (fixed && r.kind == RefLine::STMT) sx_assume(6 + (size_t)k + r.body.size() <= 72);
  bool ch = f.set_leading_spaces(k);
  std::string after = text_of(f);
  CHECK(ch == !sx_same(before, after), "set_leading_spaces reports a change");
  CHECK(!f.set_leading_spaces(k), "the second time nothing changes");
  CHECK(sx_same(text_of(f), after), "the second time the text stays");
  lit2 = false;
  File_Line g = fixed ? File_Line::analyze_fixed(1, after, ctx, 72) : File_Line::analyze_free(1, after, ctx, cont, lit2);
  CHECK(g.is_comment() == f.is_comment() && g.is_fortran() == f.is_fortran() && g.is_blank() == f.is_blank() && g.is_continuation() == f.is_continuation() && g.is_continued() == f.is_continued() && g.has_label() == f.has_label(), "the line is read back as what it was");
  if (r.kind == RefLine::COMMENT) {
    CHECK(sx_same(comment_text(after), comment_text(raw)), "the text of a comment");
    size_t c = column_of(raw, 0);
    if (raw[c] != '!') CHECK(!ch, "a comment marked in column 1 stays");
    else if (fixed && k == 5) CHECK(!ch, "a comment does not move into column 6");
    else {
      CHECK(column_of(after, 0) == (size_t)k, "the column of a comment");
      CHECK(f.get_leading_spaces() == k, "leading spaces of a comment");
      sx_cover("comment");
    }
  } else if (r.kind == RefLine::STMT) {
    CHECK(sx_same(g.main_txt, r.body), "the text of the statement");
    CHECK(sx_same(f.main_txt, r.body), "the text of the statement, in memory");
    // (beyond the last column, blanks before it count as part of it)
    std::string rt = g.right_txt.substr(column_of(g.right_txt, 0)), wt = r.right.substr(column_of(r.right, 0));
    CHECK(sx_same(rt, wt), "the text after the statement");
    size_t lw = r.left.size();
    size_t at; // where the body begins
    if (fixed) {
      if (r.amp_in) {
        CHECK(!ch, "a continuation line of fixed form stays");
        return;
      }
      if (r.open) {
        CHECK(!ch, "a fixed-form line that ends inside a character context stays");
        return;
      }
      at = 6 + (size_t)k;
    } else if (r.labelled) {
      at = lw < (size_t)k ? (size_t)k : lw + 1;
      CHECK(sx_same(after.substr(0, lw), r.left), "the label");
      sx_cover("label");
    } else if (r.amp_in) {
      at = k > 1 ? (size_t)k : 1;
      sx_cover("leading continuation");
    } else
      at = (size_t)k;
    CHECK(after.size() >= at + r.body.size() && sx_same(after.substr(at, r.body.size()), r.body), "the column of the statement");
    if (!fixed) CHECK(f.get_leading_spaces() == (int)at, "leading spaces of a statement");
    sx_cover("statement");
    if (!r.right.empty() && r.right[0] == '!') {
      size_t was = before.size() - r.right.size(), end = at + r.body.size() + (r.rsp.empty() ? 0 : 1);
      CHECK(after.size() - r.right.size() == (was > end ? was : end), "a trailing comment stays in its column");
      sx_cover("trailing comment");
    }
  } else
    CHECK(!ch, "other lines do not change");
}
extern "C" void indent_free(int n, int m, int ctx) {
  std::string s = std::string(sx_choose(3, "blanks") * 3, ' ');
  s += sx_str((size_t)n, " !&a1'#", "text");
  s += sx_str((size_t)m, " !&'", "more");
  line(s, false, ctx == 1 ? '\'' : '\0', ctx != 0);
}
extern "C" void indent_fixed(int n, int m, int ctx) {
  static const char *const P[] = {"      ", "10    ", " 10   ", "12345 ", "     0", "10   0", "     &", "     1"};
  std::string s = P[sx_choose(8, "control")];
  s += sx_str((size_t)n, " !a'", "text");
  s += sx_str((size_t)m, " !&'", "more");
  line(s, true, ctx == 1 ? '\'' : '\0', ctx != 0);
}
extern "C" void indent_fixed_comment(int n, int m) {
  std::string s = std::string(sx_choose(9, "blanks"), ' ');
  s += sx_char("!Cc*", 4, "mark");
  s += sx_str((size_t)n, " !a&", "text");
  s += std::string(sx_choose((unsigned)m, "more blanks"), ' ');
  s += sx_str(1, " !a", "last");
  line(s, true, 0, false);
}
// text in and beyond the last column
extern "C" void indent_fixed_long(int n) {
  std::string s = "      " + std::string(sx_choose(3, "blanks"), ' ') + "x = 1";
  while (s.size() < 68) s += ' ';
  s += sx_str((size_t)n, " a!&", "text");
  line(s, true, 0, false);
}
// ---- one statement over several lines, perhaps after comments --------------
extern "C" void indent_logical(void) {
  Lines in;
  unsigned nc = sx_choose(3, "comments");
  for (unsigned i = 0; i < nc; i++) in.push_back(std::string(i * 3, ' ') + "! " + sx_char("a !&", 4, "c"));
  size_t first = in.size();
  unsigned len = sx_choose(3, "lines");
  in.push_back("   call f(a" + std::string(len ? ", &" : ")"));
  for (unsigned i = 0; i < len; i++) {
    if (sx_choose(2, "comment between")) in.push_back(" ! c");
    in.push_back(std::string(i * 2, ' ') + (i + 1 < len ? "b, &" : "b)"));
  }
  Logical_Line l(in);
  Toks t0 = tokens(l);
  int k = (int)sx_choose(8, "spaces"), off = (int)sx_choose(4, "continued");
  bool ch = l.set_leading_spaces(k, off);
  Lines out = printed(l);
  CHECK(out.size() == in.size(), "the number of lines");
  CHECK(ch == !same_list(in, out), "a change is reported");
  CHECK(!l.set_leading_spaces(k, off), "the second time nothing changes");
  for (size_t i = 0; i < in.size(); i++) {
    size_t c = (size_t)(i <= first ? k : k + off);
    CHECK(column_of(out[i], 0) == c, "the column of a line");
    CHECK(sx_same(out[i].substr(c), in[i].substr(column_of(in[i], 0))), "the text of a line");
  }
  CHECK(same_list(tokens(l), t0), "the tokens");
  check_places(l);
}
// ---- whole files ----------------------------------------------------------
// each statement of a program with the constructs it is in: S specification
// part, b specification part of a block construct, X execution part, B block,
// I interface specification, N internal and M module subprogram, W where and F
// forall body, T derived type, E enumeration, C select case
struct St {
  const char *text, *in;
};
static const St PROG0[] = {
    {"subroutine s", ""}, {"integer i", "S"}, {"do i = 1, 3", "X"}, {"if (i > 1) then", "XB"}, {"x = 1", "XBB"}, {"else", "XB"}, {"call t", "XBB"}, {"end if", "XB"}, {"end do", "X"}, {"end subroutine", ""}};
static const St PROG1[] = {
    {"program p", ""}, {"use m", "S"}, {"implicit none", "S"}, {"integer i", "S"}, {"i = 1", "X"},
    {"select case (i)", "X"}, {"case (1)", "XC"}, {"a = 1", "XCB"}, {"case default", "XC"}, {"if (i == 1) then", "XCB"}, {"a = 2", "XCBB"}, {"else if (i == 2) then", "XCB"}, {"a = 3", "XCBB"}, {"else", "XCB"}, {"a = 4", "XCBB"}, {"end if", "XCB"}, {"end select", "X"},
    {"where (m > 1)", "X"}, {"b = 1", "XW"}, {"elsewhere (m > 2)", "X"}, {"where (n)", "XW"}, {"b = 2", "XWW"}, {"end where", "XW"}, {"elsewhere", "X"}, {"b = 3", "XW"}, {"end where", "X"},
    {"forall (i = 1:3)", "X"}, {"c(i) = 1", "XF"}, {"forall (j = 1:3)", "XF"}, {"d(i, j) = 1", "XFF"}, {"end forall", "XF"}, {"end forall", "X"},
    {"contains", ""}, {"subroutine s", "N"}, {"use n", "NS"}, {"x = 1", "NX"}, {"end subroutine", "N"}, {"function f()", "N"}, {"f = 1", "NX"}, {"end function", "N"}, {"end program", ""}};
static const St PROG2[] = {
    {"module m", ""}, {"use n", "S"}, {"type t", "S"}, {"private", "ST"}, {"integer i", "ST"}, {"contains", "ST"}, {"procedure f", "ST"}, {"end type", "S"},
    {"enum, bind(c)", "S"}, {"enumerator a", "SE"}, {"enumerator b", "SE"}, {"end enum", "S"},
    {"interface", "S"}, {"subroutine s(x)", "SI"}, {"integer x", "SIS"}, {"end subroutine", "SI"}, {"function f(x)", "SI"}, {"end function", "SI"}, {"end interface", "S"}, {"interface g", "S"}, {"module procedure h", "SI"}, {"end interface", "S"},
    {"contains", ""}, {"subroutine s(x)", "M"}, {"integer x", "MS"}, {"x = 1", "MX"}, {"block", "MX"}, {"integer y", "MXb"}, {"y = 1", "MXB"}, {"end block", "MX"}, {"associate (a => x)", "MX"}, {"a = 1", "MXB"}, {"end associate", "MX"},
    {"select type (x)", "MX"}, {"class is (t)", "MX"}, {"x = 2", "MXB"}, {"class default", "MX"}, {"x = 3", "MXB"}, {"end select", "MX"}, {"contains", "M"}, {"subroutine u", "MN"}, {"x = 1", "MNX"}, {"end subroutine", "MN"}, {"end subroutine", "M"},
    {"module procedure q", "M"}, {"x = 1", "MX"}, {"end procedure", "M"}, {"end module", ""}};
static const St PROG3[] = {
    {"x = 1", "X"}, {"do 10 i = 1, 3", "X"}, {"y = 1", "XB"}, {"10 continue", "X"}, {"do 20 i = 1, 3", "X"}, {"do 30 j = 1, 3", "XB"}, {"z = 1", "XBB"}, {"30 continue", "XB"}, {"20 end do", "X"}, {"do while (a)", "X"}, {"if (b) exit", "XB"}, {"end do", "X"},
    {"select rank (a)", "X"}, {"rank (1)", "X"}, {"b = 1", "XB"}, {"end select", "X"}, {"do concurrent (i = 1:3)", "X"}, {"c(i) = 1", "XB"}, {"end do", "X"}, {"end", ""},
    {"integer function f(x)", ""}, {"parameter (n = 1)", "S"}, {"100 format (i3)", "S"}, {"f = 1", "X"}, {"200 format (i4)", "X"}, {"data x / 1 /", "X"}, {"end", ""}};
struct Prog {
  const St *s;
  int n;
};
static const Prog PROGS[] = {{PROG0, sizeof PROG0 / sizeof *PROG0}, {PROG1, sizeof PROG1 / sizeof *PROG1}, {PROG2, sizeof PROG2 / sizeof *PROG2}, {PROG3, sizeof PROG3 / sizeof *PROG3}};
static const struct {
  char c;
  int tag;
} TAGS[] = {{'S', Syntax_Tags::PG_SPECIFICATION_PART}, {'b', Syntax_Tags::PG_BLOCK_SPECIFICATION_PART}, {'X', Syntax_Tags::PG_EXECUTION_PART}, {'B', Syntax_Tags::PG_BLOCK}, {'I', Syntax_Tags::PG_INTERFACE_SPECIFICATION}, {'N', Syntax_Tags::PG_INTERNAL_SUBPROGRAM}, {'M', Syntax_Tags::PG_MODULE_SUBPROGRAM}, {'W', Syntax_Tags::PG_WHERE_BODY_CONSTRUCT}, {'F', Syntax_Tags::PG_FORALL_BODY_CONSTRUCT}, {'T', Syntax_Tags::PG_DERIVED_TYPE_DEF}, {'E', Syntax_Tags::PG_ENUM_DEF}, {'C', Syntax_Tags::PG_CASE_CONSTRUCT}};
static int indent_of(const Indent_Table &t, const char *in) {
  int r = 0;
  for (; *in; in++)
    for (auto &x : TAGS)
      if (x.c == *in) r += t[x.tag];
  return r;
}
// the tables that come with the class
static void check_table(const Indent_Table &t, const char *zero, int n, const char *less, int m, int off) {
  for (auto &x : TAGS) {
    if (x.c == 'b' || x.c == 'F') continue;
    int want = strchr(zero, x.c) ? 0 : strchr(less, x.c) ? m : n;
    CHECK(t[x.tag] == want && t.get_indent(x.tag) == want, "a table's indentation");
  }
  CHECK(t.continued_offset() == off, "a table's indentation of continued lines");
}
extern "C" void indent_tables(void) {
  int n = (int)sx_choose(9, "spaces");
  Indent_Table a, b, c, d;
  check_table(d, "SXBINMWTEC", 0, "", 0, 2);
  a.apply_constant_indent(n);
  check_table(a, "", n, "", 0, 5);
  b.apply_constant_fixed_indent(n);
  check_table(b, "SX", n, "", 0, 5);
  c.apply_emacs_indent();
  check_table(c, "", 3, "SXNM", 2, 5);
  unsigned x = sx_choose(12, "tag"), y = sx_choose(12, "other");
  d.set_indent(TAGS[x].tag, n);
  CHECK(d[TAGS[x].tag] == n && (x == y || d[TAGS[y].tag] == 0), "one entry of a table");
  d.set_continued_offset(n);
  CHECK(d.continued_offset() == n && d[TAGS[x].tag] == n, "the indentation of continued lines");
}
static Indent_Table table(unsigned which) {
  Indent_Table t;
  switch (which) {
  case 0: t.apply_constant_indent(2); break;
  case 1: t.apply_emacs_indent(); break;
  case 2: t.apply_constant_fixed_indent(3); break;
  case 3: { // each its own
    static const int V[] = {1, 2, 3, 5, 7, 11, 4, 6, 9, 8, 10, 12};
    int i = 0;
    for (auto &x : TAGS) t.set_indent(x.tag, V[i++]);
    t.set_continued_offset(4);
    break;
  }
  case 4: t.apply_constant_indent(5); break;
  default: break; // no indentation
  }
  return t;
}
struct Where { // a line of the file that begins with a statement
  size_t line;
  int in, label; // its indentation; digits of its label
};
struct Src {
  Lines lines;
  std::vector<Where> w;
  bool fixed = false;
  // a statement with its label, with n blanks before it
  void stmt(const std::string &t, int in, size_t blanks) {
    size_t d = 0;
    while (d < t.size() && t[d] >= '0' && t[d] <= '9') d++;
    Where x = {lines.size(), in, (int)d};
    w.push_back(x);
    size_t b = d;
    while (b < t.size() && t[b] == ' ') b++;
    std::string s = t.substr(0, d);
    if (fixed) s += std::string(6 - d, ' ');
    else if (d) s += ' ';
    lines.push_back(s + std::string(blanks, ' ') + t.substr(b));
  }
};
static bool same_lists(const std::vector<std::string> &a, const std::vector<std::string> &b) {
  return same_list(a, b);
}
static std::vector<std::string> comment_texts(const Seen &s) {
  std::vector<std::string> r;
  for (auto &c : s.comments) r.push_back(comment_text(c));
  return r;
}
static void file(Src &s, const Indent_Table &t) {
  std::string text;
  for (auto &l : s.lines) text += l + "\n";
  Seen was = look(s.lines, s.fixed);
  CHECK(was.ok, "harness: the source is read");
  SxIn in(text);
  PF f(in.is(), s.fixed ? "t.f" : "t.f90", s.fixed ? 72 : 0, s.fixed ? File_Type::FIXEDFMT : File_Type::FREEFMT);
  Lines b0 = printed(f.logical_file());
  f.parse_tree();
  CHECK(bool(f), "harness: the source is parsed");
  bool ch = f.indent(t);
  Lines out = printed(f.logical_file());
  CHECK(out.size() == s.lines.size(), "the number of lines");
  CHECK(ch == !same_lists(b0, out), "indent reports a change");
  CHECK(!f.indent(t), "indenting again changes nothing");
  CHECK(same_lists(printed(f.logical_file()), out), "the text stays when indented again");
  Seen now = look(out, s.fixed);
  CHECK(now.ok, "the indented file is read");
  CHECK(now.stmts.size() == was.stmts.size(), "the number of statements");
  for (size_t i = 0; i < was.stmts.size(); i++) {
    CHECK(now.labels[i] == was.labels[i], "the label of a statement");
    CHECK(same_list(now.stmts[i], was.stmts[i]), "the tokens of a statement");
  }
  CHECK(same_lists(comment_texts(now), comment_texts(was)), "the comments");
  CHECK(same_lists(now.other, was.other), "the preprocessor and include lines");
  for (auto &l : f.logical_lines()) check_places(l);
  for (auto &x : s.w) {
    const std::string &l = out[x.line];
    size_t c = column_of(l, s.fixed ? 6 : (size_t)x.label), want = (size_t)x.in;
    if (s.fixed) want += 6;
    else if (x.label && (size_t)x.label >= want) want = (size_t)x.label + 1;
    if (c != want) sx_note(l.c_str());
    CHECK(c == want, "the column of a statement");
  }
  if (ch) sx_cover("indented");
}
extern "C" void indent_prog(int which, int fixed) {
  Indent_Table t = table(sx_choose(6, "table"));
  Src s;
  s.fixed = fixed;
  unsigned style = sx_choose(4, "blanks");
  for (int i = 0; i < PROGS[which].n; i++) {
    const St &x = PROGS[which].s[i];
    int in = indent_of(t, x.in);
    s.stmt(x.text, in, style == 0 ? 0 : style == 1 ? (size_t)(i % 5) : style == 2 ? 9 : (size_t)in);
  }
  file(s, t);
}
// what may stand in the place of, or before, a statement
static void decorate(Src &s, const St &x, int in, int cont, int how, size_t blanks) {
  (void)cont;
  std::string b(blanks, ' '), m = s.fixed ? "      " : "";
  static const char A[] = "ab !&'";
  char c1 = 'a', c2 = 'a';
  auto sym = [&]() {
    c1 = sx_char(A, 6, "c1");
    c2 = sx_char(A, 6, "c2");
  };
  Where w = {0, in, 0};
  switch (how) {
  case 0: // a comment before it
    sym();
    s.lines.push_back((s.fixed && blanks ? m : std::string()) + b + "!" + c1 + c2 + "z");
    s.stmt(x.text, in, blanks);
    break;
  case 1: // a trailing comment
    sym();
    s.stmt(x.text + (std::string(sx_choose(3, "gap") * 2, ' ') + "!" + c1 + c2), in, blanks);
    break;
  case 2: // preprocessor, include and directive lines, blank lines
    s.lines.push_back("#if 1");
    s.lines.push_back(m + b + "include 'a.h'");
    s.lines.push_back("");
    s.lines.push_back("!#flpr x");
    s.stmt(x.text, in, blanks);
    break;
  case 3: // a second statement on the line
    s.stmt(std::string("print *, 1 ; ") + x.text, in, blanks);
    break;
  case 4: // a labelled statement before it
    s.stmt("100 continue", in, blanks);
    s.stmt(x.text, in, blanks);
    break;
  case 5: // continued
    c1 = sx_char("ab", 2, "c1");
    w.line = s.lines.size();
    s.w.push_back(w);
    if (s.fixed) {
      s.lines.push_back(m + b + "call u(" + c1 + ",");
      s.lines.push_back("     &" + b + "b)");
    } else {
      s.lines.push_back(b + "call u(" + c1 + ", & ! first");
      s.lines.push_back(b + "b)");
    }
    s.stmt(x.text, in, blanks);
    break;
  case 6: // continued with a leading mark, a comment in between
    c1 = sx_char("ab !", 4, "c1");
    w.line = s.lines.size();
    s.w.push_back(w);
    if (s.fixed) {
      s.lines.push_back(m + b + "call u(a,");
      s.lines.push_back(std::string(sx_choose(2, "mark") ? "!" : "C") + c1);
      s.lines.push_back("     1" + b + "b)");
    } else {
      s.lines.push_back(b + "call u(a, &");
      s.lines.push_back(b + "! " + c1);
      s.lines.push_back(b + "  & b)");
    }
    s.stmt(x.text, in, blanks);
    break;
  case 7: // a character context over two lines
    c1 = sx_char("ab !&", 5, "c1");
    w.line = s.lines.size();
    s.w.push_back(w);
    if (s.fixed) {
      std::string l = m + b + "print *, 'a";
      while (l.size() < 72) l += c1;
      s.w.back().in = (int)blanks; // it stays
      s.lines.push_back(l);
      s.lines.push_back("     &" + b + "b'");
    } else {
      s.lines.push_back(b + "print *, 'a" + c1 + "&");
      s.lines.push_back(b + "  &" + c1 + " b'");
    }
    s.stmt(x.text, in, blanks);
    break;
  case 8: // marks in column 1 of fixed form; a literal block of free form
    if (s.fixed) {
      char mk = sx_char("Cc*", 3, "mark");
      sym();
      s.lines.push_back(std::string(1, mk) + " " + c1 + "!" + c2);
    } else {
      s.lines.push_back("!#flpr beg literal");
      s.lines.push_back("   z = 1");
      s.lines.push_back("!#flpr end literal");
    }
    s.stmt(x.text, in, blanks);
    break;
  case 9: // a zero in column 6; a token over two lines
    w.line = s.lines.size();
    s.w.push_back(w);
    if (s.fixed) {
      s.lines.push_back("     0" + b + "x = 1");
      w.line++;
      s.w.push_back(w);
      s.lines.push_back("10   0" + b + "x = 1");
    } else {
      s.lines.push_back(b + "call lo&");
      s.lines.push_back(b + "   &ng(a)");
    }
    s.stmt(x.text, in, blanks);
    break;
  }
}
extern "C" void indent_deco(int how, int fixed) {
  Indent_Table t = table(sx_choose(5, "table"));
  Src s;
  s.fixed = fixed;
  static const unsigned char P[] = {4, 7, 8, 2};
  int at = P[sx_choose(3 + (how == 0 || how == 2 || how == 1), "statement")];
  size_t blanks = (size_t)sx_choose(3, "blanks") * 3;
  for (int i = 0; i < PROGS[0].n; i++) {
    const St &x = PROG0[i];
    int in = indent_of(t, x.in);
    if (i == at) {
      // what stands before an end is in the block
      bool end = how >= 3 && (i == 7 || i == 8);
      if (end) {
        St y = {"y = 2", i == 7 ? "XBB" : "XB"};
        decorate(s, y, indent_of(t, y.in), t.continued_offset(), how, blanks);
        s.stmt(x.text, in, blanks);
      } else
        decorate(s, x, in, t.continued_offset(), how, blanks);
    } else
      s.stmt(x.text, in, 1);
  }
  file(s, t);
}
