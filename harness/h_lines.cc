// Line anatomy (P03 free form, P04 fixed form) and the grouping of physical
// lines into logical lines (P05).
#include "ref_lines.h"
using namespace FLPR;

static int digits_at(const std::string &s, size_t i) {
  int n = 0;
  while (i < s.size() && s[i] >= '0' && s[i] <= '9') n++, i++;
  return n;
}
static bool short_label(const std::string &s) { return digits_at(s, ref_first(s)) <= 5; }
static void one_free(const std::string &s, char ctx, bool cont, bool lit) {
  bool l1 = lit, l2 = lit;
  RefLine r = ref_free(s, ctx, cont, l1);
  bool threw = false;
  File_Line f;
  try {
    f = File_Line::analyze_free(7, s, ctx, cont, l2);
  } catch (std::exception &) {
    threw = true;
  }
  CHECK(threw == (r.kind == RefLine::ERROR), "only an unterminated character literal may be rejected");
  ref_covers(r);
  if (threw) return;
  CHECK(l1 == l2, "literal block state");
  CHECK(f.linenum == 7, "line number");
  ref_compare(f, r, false);
}
static char ctx_of(int c) { return c == 1 ? '\'' : c == 2 ? '"' : '\0'; }
// ctx: 0 none, 1 ', 2 "   (an open context implies a continued line)
extern "C" void line_free(int n, int ctx, int cont) {
  std::string s = sx_str((size_t)n, " \ta1&!'\"#", "line");
  sx_assume(short_label(s));
  one_free(s, ctx_of(ctx), cont != 0 || ctx != 0, false);
}
// a symbolic stretch inside a realistic line
extern "C" void line_free_shape(int shape, int n) {
  std::string h = sx_str((size_t)n, " a0&!'\"", "hole");
  std::string s;
  switch (shape) {
  case 0: s = "  x = y" + h; break;
  case 1: s = "  call s('" + h + "')"; break;
  case 2: s = "100 " + h + " = 1 & ! more"; break;
  case 3: s = "   & + " + h + "! tail"; break;
  case 4: s = "\tprint *, \"it''s" + h; break;
  case 5: s = h + "include 'a.h'"; break;
  case 6: s = "  Include" + h + "\"a.h\""; break;
  case 7: s = " !#flpr" + h + " literal"; break;
  case 8: s = h + "!#flpr--- liter" + sx_str(2, "alb", "t"); break;
  case 9: s = "x='a" + h + " \t\r"; break;
  default: s = h + "#define A"; break;
  }
  sx_assume(short_label(s));
  one_free(s, '\0', false, false);
}
extern "C" void line_literal(int n) {
  std::string s = sx_str((size_t)n, " !#f", "a") + sx_str(3, "flprx#", "b") + "pr--- literal" + sx_str_upto(1, " x", "z");
  one_free(s, '\0', false, true);
  std::string t = sx_str_upto(2, " !", "p") + "!#flpr--- liter" + sx_str_upto(2, "al", "q");
  one_free(t, '\0', false, true);
}
// ------------------------------------------------------------------- fixed form
static void one_fixed(const std::string &s, char ctx, int last) {
  sx_assume(ref_fixed_ok(s));
  RefLine r = ref_fixed(s, ctx, last);
  File_Line f = File_Line::analyze_fixed(7, s, ctx, last);
  ref_covers(r);
  CHECK(f.linenum == 7, "line number");
  ref_compare(f, r, true);
  if (r.labelled) {
    Logical_Line ll(s, last);
    int v = 0;
    for (char c : r.left.substr(0, r.left.size() < 5 ? r.left.size() : 5))
      if (c >= '0' && c <= '9') v = v * 10 + (c - '0');
    CHECK(ll.label == v, "value of a fixed-form label");
  }
}
extern "C" void line_fixed(int pre, int n, int ctx) {
  std::string s = std::string((size_t)pre, ' ') + sx_str((size_t)n, " a10!'\"&c", "line");
  one_fixed(s, ctx_of(ctx), 72);
}
extern "C" void line_fixed_cols(int tail) {
  std::string c = sx_str(6, " 10c&", "cols");
  static const char *const T[] = {"x = 1", "  call s('a!b') ! note", "include 'f.h'", " y = \"b"};
  one_fixed(c + T[tail], '\0', 72);
}
extern "C" void line_fixed_last(int last, int ctx) {
  // text that reaches past the last column
  std::string s = "     " + sx_str(1, "& ", "c6");
  while (s.size() + 2 < (size_t)last) s += 'a';
  s += sx_str(5, " a!'&", "e");
  one_fixed(s, ctx_of(ctx), last);
}
extern "C" void line_fixed_tab() {
  // a tab in the control columns stands for six blanks
  std::string pre = sx_str_upto(2, "1 ", "pre"), post = sx_str(2, "a1 ", "post");
  std::string s = pre + "\t" + post + "=1", t = pre + "      " + post + "=1";
  File_Line f = File_Line::analyze_fixed(7, s, '\0', 72), g = File_Line::analyze_fixed(7, t, '\0', 72);
  CHECK(sx_same(f.left_txt, g.left_txt) && sx_same(f.left_space, g.left_space) && sx_same(f.main_txt, g.main_txt), "a tab in the control columns");
  CHECK(f.has_label() == g.has_label() && f.is_continuation() == g.is_continuation(), "a tab in the control columns");
}
// --------------------------------------------------------------------- grouping
struct Grp {
  size_t first, last;
  LineCat cat;
  bool stmt;
};
static bool backslash(const std::string &s) {
  size_t e = s.size();
  while (e > 0 && (s[e - 1] == ' ' || s[e - 1] == '\t' || s[e - 1] == '\r')) e--;
  return e > 0 && s[e - 1] == '\\';
}
// groups of a list of reference lines
static std::vector<Grp> ref_groups(const std::vector<RefLine> &l, bool fixed) {
  std::vector<Grp> g;
  size_t i = 0, n = l.size();
  auto trivial = [&](size_t k) { return l[k].kind == RefLine::BLANK || l[k].kind == RefLine::COMMENT; };
  while (i < n) {
    size_t j = i + 1;
    if (trivial(i)) {
      while (j < n && trivial(j)) j++;
      g.push_back({i, j, LineCat::UNKNOWN, false});
    } else if (l[i].kind == RefLine::LITERAL) {
      while (j < n && l[j].kind == RefLine::LITERAL) j++;
      g.push_back({i, j, LineCat::LITERAL, false});
    } else if (l[i].kind != RefLine::STMT) {
      LineCat c = l[i].kind == RefLine::CPP ? LineCat::MACRO : l[i].kind == RefLine::INCLUDE ? LineCat::INCLUDE : LineCat::FLPR_PP;
      while (j < n && backslash(l[j - 1].left)) j++;
      g.push_back({i, j, c, false});
    } else {
      size_t end = i; // last statement line of the group
      if (fixed) {
        for (size_t k = i + 1; k < n && (trivial(k) || l[k].amp_in); k++)
          if (!trivial(k)) end = k;
      } else {
        size_t k = i;
        while (l[end].amp_out) {
          k++;
          while (k < n && trivial(k)) k++;
          if (k == n) break;
          end = k;
        }
      }
      j = end + 1;
      g.push_back({i, j, LineCat::UNKNOWN, true});
    }
    i = j;
  }
  return g;
}
static void group(const Lines &in, bool fixed) {
  std::vector<RefLine> ref;
  char ctx = '\0';
  bool cont = false, lit = false, sl = false;
  for (auto &s : in) {
    RefLine r;
    if (sl) {
      r.kind = RefLine::CPP;
      r.left = s;
    } else if (fixed) {
      sx_assume(ref_fixed_ok(s));
      r = ref_fixed(s, ctx, 72);
    } else {
      sx_assume(short_label(s));
      r = ref_free(s, ctx, cont, lit);
    }
    bool nonstmt = r.kind == RefLine::CPP || r.kind == RefLine::INCLUDE || r.kind == RefLine::DIRECTIVE;
    // lines that may not stand between the lines of one statement
    if (!fixed && cont) sx_assume(!nonstmt && r.kind != RefLine::LITERAL);
    sl = nonstmt && backslash(r.left);
    if (r.kind != RefLine::BLANK && r.kind != RefLine::COMMENT) {
      ctx = r.open;
      cont = r.amp_out;
    }
    ref.push_back(r);
  }
  bool bad = false;
  for (auto &r : ref) bad |= r.kind == RefLine::ERROR;
  Logical_File f;
  bool ok = f.scan(in, fixed ? "t.f" : "t.f90", fixed ? 72 : 0, fixed ? File_Type::FIXEDFMT : File_Type::FREEFMT);
  CHECK(ok == !bad, "only an unterminated character literal may be rejected");
  if (!ok) {
    sx_cover("rejected");
    return;
  }
  // the last statement of a free-form file may be left continued; a fixed-form
  // continuation line may come first: both still belong to one group
  auto g = ref_groups(ref, fixed);
  CHECK(f.lines.size() == g.size(), "number of logical lines");
  size_t k = 0;
  bool dir = false;
  for (auto &l : f.lines) {
    CHECK(l.layout().size() == g[k].last - g[k].first, "lines of a logical line");
    CHECK(l.start_line() == (int)g[k].first + 1 && l.end_line() == (int)g[k].last + 1, "extent of a logical line");
    CHECK(l.cat == g[k].cat, "category of a logical line");
    CHECK(l.has_fortran() == g[k].stmt, "statement lines");
    CHECK(l.file_info == f.file_info, "file of a logical line");
    if (g[k].cat == LineCat::FLPR_PP) dir = true;
    for (size_t i = 0; i < l.layout().size(); i++) {
      const File_Line &fl = l.layout()[i];
      const RefLine &r = ref[g[k].first + i];
      CHECK(sx_same(fl.main_txt, r.body), "body of a line in a group");
      CHECK(fl.open_delim == r.open, "character context in a group");
      CHECK(fl.is_fortran() == (r.kind == RefLine::STMT), "statement line in a group");
    }
    if (g[k].stmt) {
      sx_cover("statement group");
      if (g[k].last - g[k].first > 1) sx_cover("continued statement");
      if (g[k].last - g[k].first > 2 && (ref[g[k].first + 1].kind == RefLine::COMMENT || ref[g[k].first + 1].kind == RefLine::BLANK)) sx_cover("interspersed comment");
      int v = 0;
      if (ref[g[k].first].labelled)
        for (size_t q = 0; q < ref[g[k].first].left.size() && q < 5; q++) {
          char c = ref[g[k].first].left[q];
          if (c >= '0' && c <= '9') v = v * 10 + (c - '0');
        }
      CHECK(l.label == v, "label of a logical line");
    } else if (g[k].cat == LineCat::MACRO && g[k].last - g[k].first > 1)
      sx_cover("continued preprocessor line");
    k++;
  }
  CHECK(f.has_flpr_pp == dir, "directive flag of the file");
}
static std::string fr_line() {
  switch (sx_choose(11, "shape")) {
  case 0: return "x = " + sx_str(1, "a1&!'", "v");
  case 1: return "y = 2 &";
  case 2: return sx_str(1, " &1", "lead") + " + b" + sx_str(1, " &!", "tail");
  case 3: return " ! c" + sx_str(1, "&' ", "v");
  case 4: return sx_str(1, " \t", "v");
  case 5: return "s = 'a&";
  case 6: return "&b" + sx_str(1, "'!&", "h");
  case 7: return "#if x" + sx_str(1, " \\", "p");
  case 8: return "!#flpr-go" + sx_str(1, " \\", "p");
  case 9: return sx_str(1, " 1", "lab") + "2 z = 1 &" + sx_str(1, " a", "t");
  default: return "!#flpr--- literal";
  }
}
extern "C" void group_free(int k) {
  Lines in;
  for (int i = 0; i < k; i++) in.push_back(fr_line());
  group(in, false);
}
static std::string fx_line() {
  switch (sx_choose(9, "shape")) {
  case 0: return "      x = " + sx_str(1, "a1&!'", "v");
  case 1: return "     " + sx_str(1, "&01", "c") + "+ b" + sx_str(1, "'! ", "t");
  case 2: return sx_str(1, "c*!", "c") + "  it" + sx_str(1, "'s", "v");
  case 3: return sx_str_upto(1, " ", "v");
  case 4: return "      s = 'a&";
  case 5: return "#if x" + sx_str(1, " \\", "p");
  case 6: return " " + sx_str(1, " 12", "l") + sx_str(1, "12", "lab") + "   z = 1";
  case 7: return "      include 'a'" ;
  default: return "!#flpr-go" + sx_str(1, " \\", "p");
  }
}
extern "C" void group_fixed(int k) {
  Lines in;
  for (int i = 0; i < k; i++) in.push_back(fx_line());
  group(in, true);
}
