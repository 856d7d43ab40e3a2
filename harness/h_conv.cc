// Conversion from fixed to free form (P12).
#include "edit_util.h"
#include "flpr/Indent_Table.hh"
#include "flpr/Parsed_File.hh"
using PF = Parsed_File<>;
static std::string text_of(const File_Line &f) {
  SxOut o;
  o.os() << f;
  return o.str();
}
static std::string comment_text(const std::string &s) {
  size_t k = 1;
  while (k < s.size() && (s[k] == ' ' || s[k] == '\t')) k++;
  return "!" + rtrim(s.substr(k < s.size() ? k : s.size()));
}
static std::vector<std::string> comment_texts(const Seen &s) {
  std::vector<std::string> r;
  for (auto &c : s.comments) r.push_back(comment_text(c));
  return r;
}
// the source is a fixed-form file by the language's rules; the comments beyond
// the last column on lines that end inside a character context are not kept
static bool good(const Lines &in, std::vector<std::string> &com) {
  char ctx = '\0';
  bool any = false;
  for (auto &l : in) {
    if (!ref_fixed_ok(l)) return false;
    RefLine r = ref_fixed(l, ctx, 72);
    if (r.kind == RefLine::COMMENT) {
      size_t k = 0;
      while (l[k] == ' ') k++;
      com.push_back(comment_text("!" + l.substr(k + 1)));
    }
    if (r.kind != RefLine::STMT) continue;
    if (r.body.empty() || r.body[0] == '#') return false;
    if (!r.amp_in && ctx) return false;
    if (r.amp_in && !any) return false;
    char c = ctx; // (an ampersand belongs into a character literal)
    for (char x : r.body)
      if (c) {
        if (x == c) c = '\0';
      } else if (x == '\'' || x == '"') c = x;
      else if (x == '&') return false;
    any = true;
    ctx = r.open;
    size_t k = 0;
    while (k < r.right.size() && ref_ws(r.right[k])) k++;
    bool amp = k < r.right.size() && r.right[k] == '&'; // (not part of the comment)
    if (amp)
      for (k++; k < r.right.size() && ref_ws(r.right[k]);) k++;
    if (k < r.right.size() && !ctx) com.push_back(comment_text((amp && r.right[k] != '!' ? "!" : "") + r.right.substr(k)));
  }
  return !ctx;
}
static void convert(const Lines &in, bool indent = false) {
  std::vector<std::string> com;
  sx_assume(good(in, com));
  Seen was = look(in, true);
  CHECK(was.ok, "harness: the source is read");
  std::string text;
  for (auto &l : in) text += l + "\n";
  SxIn is(text);
  PF p(is.is(), "t.f", 72, File_Type::FIXEDFMT);
  Logical_File &f = p.logical_file();
  if (indent) {
    p.parse_tree();
    CHECK(bool(p), "harness: the source is parsed");
  }
  CHECK(f.convert_fixed_to_free(), "conversion reports a change");
  CHECK(f.file_info->file_type == File_Type::FREEFMT, "the form of the file");
  if (indent) {
    Indent_Table t;
    t.apply_constant_indent(3);
    p.indent(t);
  }
  Lines out = printed(f);
  for (auto &l : out) sx_note(l.c_str());
  CHECK(!f.convert_fixed_to_free(), "a second conversion changes nothing");
  CHECK(same_list(printed(f), out), "the text stays when converted again");
  CHECK(out.size() == in.size(), "the number of lines");
  for (auto &l : out) CHECK(l.size() <= 132, "the length of a line");
  Seen now = look(out, false);
  CHECK(now.ok, "the converted file is read");
  CHECK(now.stmts.size() == was.stmts.size(), "the number of statements");
  for (size_t i = 0; i < was.stmts.size(); i++) {
    CHECK(now.labels[i] == was.labels[i], "the label of a statement");
    CHECK(same_list(now.stmts[i], was.stmts[i]), "the tokens of a statement");
  }
  CHECK(same_list(comment_texts(now), com), "the comments");
  for (auto &o : was.other)
    if (o.compare(1, 5, "#flpr") == 0) o[0] = '!';
  CHECK(same_list(now.other, was.other), "the preprocessor, include and directive lines");
  for (auto &l : f.lines) {
    check_places(l);
    check_stmts(l);
  }
  // in memory it is what would be read
  Logical_File g;
  g.scan(out, "t", 0, File_Type::FREEFMT);
  auto a = f.lines.begin(), b = g.lines.begin();
  for (; a != f.lines.end() && b != g.lines.end(); ++a, ++b) {
    CHECK(a->layout().size() == b->layout().size(), "the lines of a statement");
    CHECK(a->label == b->label, "the label in memory");
    for (size_t i = 0; i < a->layout().size(); i++) {
      const File_Line &x = a->layout()[i], &y = b->layout()[i];
      CHECK(x.is_fixed_format() == y.is_fixed_format() && x.is_comment() == y.is_comment() && x.is_blank() == y.is_blank() && x.is_fortran() == y.is_fortran() && x.is_preprocessor() == y.is_preprocessor() && x.is_include() == y.is_include(), "the class of a line in memory");
      CHECK(!x.is_fortran() || (x.is_continued() == y.is_continued() && x.is_continuation() == y.is_continuation() && x.has_label() == y.has_label() && x.open_delim == y.open_delim), "the continuation marks in memory");
      CHECK(!x.is_fortran() || x.main_first_col() == y.main_first_col(), "the column in memory");
    }
    CHECK(same_list(tokens(*a), tokens(*b)), "the tokens in memory");
  }
  CHECK(a == f.lines.end() && b == g.lines.end(), "the number of logical lines");
  sx_cover("converted");
}
static const char *const FIRST[] = {"      ", "10    ", " 10   ", "12345 ", "     0", "10   0"};
// one line
extern "C" void conv_line(int n) {
  std::string s = FIRST[sx_choose(6, "control")];
  s += sx_str((size_t)n, " a!&';", "text");
  convert({s});
}
static bool plain = false;
static std::string ch(const char *set, const char *name) { return plain ? std::string(1, set[1]) : sx_str(1, set, name); }
static bool between(Lines &in, unsigned how) {
  switch (how) {
  case 0: return true;
  case 1: in.push_back(ch("Cc*!", "mark") + ch(" a!&'", "comment") + ch(" a!&'", "comment")); return true;
  case 2: in.push_back(std::string(1 + (plain ? 1 : sx_choose(3, "blanks")) * 3, ' ') + "!" + ch(" a!&'", "comment")); return true;
  case 3: in.push_back(""); return true;
  case 4: in.push_back("#if 1"); return true;
  case 5: in.push_back("      include 'a'"); return true;
  default: in.push_back(ch("C*!", "mark") + "#flpr x"); return true;
  }
}
// a statement on two (three) short lines
extern "C" void conv_two(int n, int m) {
  Lines in;
  in.push_back(FIRST[sx_choose(6, "control")] + sx_str((size_t)n, " a=!'", "text"));
  between(in, sx_choose(4, "between"));
  in.push_back(std::string("     ") + sx_char("&1!", 3, "mark") + sx_str((size_t)m, " a!&'", "more"));
  convert(in);
}
extern "C" void conv_three(int n, int how) {
  Lines in;
  in.push_back("      x=" + sx_str((size_t)n, " a!'", "text"));
  between(in, (unsigned)how);
  in.push_back("     1" + sx_str((size_t)n, " a!'", "more"));
  in.push_back("     2" + sx_str((size_t)n, " a!'", "last"));
  in.push_back("      y=1");
  convert(in);
}
// a line that reaches the last column, or has text beyond it
extern "C" void conv_long(int n, int m, int two) {
  std::string s = FIRST[sx_choose(3, "control")];
  bool str = sx_choose(2, "string");
  s += str ? "x='b" : "x =b";
  while (s.size() + (size_t)n < 72) s += 'b';
  s += sx_str((size_t)n, " a'", "text");
  s += sx_str((size_t)m, " !&a", "beyond");
  Lines in = {s};
  if (two) in.push_back("     &" + sx_str(3, " a!&'", "more"));
  in.push_back("      y = 2");
  convert(in);
}
// more than one statement: comments, labels, compound lines, other lines
extern "C" void conv_file(int k, int symbolic) {
  plain = !symbolic;
  Lines in;
  for (int i = 0; i < k; i++) {
    between(in, sx_choose(7, "before"));
    switch (sx_choose(8, "statement")) {
    case 0: in.push_back("      x = 1 ; y = " + ch("a1", "c")); break;
    case 1: in.push_back("10    continue"); break;
    case 2: in.push_back("100   x = '" + ch("a! ", "c") + "'"); break;
    case 3: in.push_back("      call f(a,"); in.push_back("     &b)"); break;
    case 4: in.push_back("      if (a) go to 10 ! " + ch("a!&", "c")); break;
    case 5: in.push_back("      x = lo"); in.push_back("     1ng +"); in.push_back("     2  'a" + ch(" !&b", "c")); in.push_back("     3b'"); break;
    case 6: in.push_back("    5 x = 1"); break;
    default: in.push_back("99999 format (i3)"); break;
    }
  }
  convert(in);
}
// and indented afterwards
extern "C" void conv_indent(int symbolic) {
  plain = !symbolic;
  Lines in = {"      subroutine s", "      integer i"};
  between(in, sx_choose(7, "before"));
  in.push_back("      do 10 i = 1, 3");
  switch (sx_choose(5, "statement")) {
  case 0: in.push_back("20    x = 1 ; y = 2 ! c"); break;
  case 1: in.push_back("      call f(a,"); between(in, sx_choose(4, "between")); in.push_back("     &  b)"); break;
  case 2: in.push_back("      x = lo"); in.push_back("     1ng +"); in.push_back("     2  'a" + ch(" !&b", "c")); in.push_back("     3b'"); break;
  case 3: in.push_back("    5 x = 1"); break;
  default: in.push_back("     0  x = 1"); break;
  }
  between(in, sx_choose(7, "before"));
  in.push_back("10    continue");
  in.push_back("      end subroutine");
  convert(in, true);
}
// free-form files are not converted
extern "C" void conv_free(int n) {
  Lines in = {sx_str((size_t)n, " a!&", "text") + "&", "  b ! c", "end"};
  Logical_File f;
  bool lit = false;
  sx_assume(ref_free(in[0], '\0', false, lit).amp_out);
  CHECK(f.scan(in, "t", 0, File_Type::FREEFMT), "harness: the source is read");
  Lines a = printed(f);
  CHECK(!f.convert_fixed_to_free(), "a free-form file is not converted");
  CHECK(same_list(a, printed(f)) && same_list(a, in), "a free-form file keeps its text");
  Logical_File e;
  CHECK(!e.convert_fixed_to_free(), "an empty file is not converted");
}
