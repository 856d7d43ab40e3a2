// Tokens (P06), their positions (P07) and statements (P08).
#include "ref_lex.h"
#include "ref_lines.h"
#include "flpr/LL_Stmt_Src.hh"
using namespace FLPR;

static void same_tokens(const TT_SEQ &f, const std::string &text) {
  RefLex r(text);
  CHECK(f.size() == r.out.size(), "number of tokens");
  size_t k = 0;
  for (auto it = f.cbegin(); it != f.cend(); ++it, ++k) {
    CHECK(sx_same(it->text(), r.out[k].txt), "token text");
    CHECK(it->token == r.out[k].tag, "token kind");
    if (r.out[k].tag == Syntax_Tags::UNKNOWN) sx_cover("unknown");
    if (r.out[k].tag == Syntax_Tags::SG_SIGNIFICAND) sx_cover("real");
    if (r.out[k].tag == Syntax_Tags::SG_CHAR_LITERAL_CONSTANT) sx_cover("string");
    if (r.out[k].tag == Syntax_Tags::TK_DEF_OP) sx_cover("operator");
  }
}
static const char *ALPHA[] = {
    "1.e_+ a", "'\"a_1 ", ".eqnot1a", "=/*<>:(-", "ad1_E.+;", "[%],|\t)^", "1.d-Z_k",
};
// the text after "k=": any characters of an alphabet
extern "C" void lex_chars(int n, int alpha) {
  std::string s = "k=" + sx_str((size_t)n, ALPHA[alpha], "t");
  try {
    Logical_Line ll(s);
    std::string body = ll.layout()[0].main_txt;
    same_tokens(ll.fragments(), body);
  } catch (std::runtime_error &) {
    sx_cover("rejected");
  }
}
// long lexemes of every kind
static std::string stretch(int len, const char *set) {
  std::string r = sx_str(1, set, "first");
  if (len > 2) r += std::string((size_t)len - 2, set[0]);
  if (len > 1) r += sx_str(1, set, "last");
  return r;
}
extern "C" void lex_long(int kind) {
  static const int LEN[] = {1, 2, 3, 5, 8, 9, 16, 17, 31, 32, 33, 63, 64, 70};
  int n = LEN[sx_choose(sizeof LEN / sizeof *LEN, "length")];
  std::string s = "k=";
  switch (kind) {
  case 0: s += "b" + stretch(n, "a9_Z"); break;
  case 1: s += stretch(n, "109"); break;
  case 2: s += "1_" + stretch(n, "a7_"); break;
  case 3: s += stretch(n, "10") + "." + stretch(n, "09"); break;
  case 4: s += "1e" + stretch(n, "09"); break;
  case 5: s += "." + stretch(n, "19") + "D-" + stretch(n, "09") + "_" + stretch(n, "a1"); break;
  case 6: s += "'" + stretch(n, "a'\" ") + "'"; break;
  case 7: s += "c_\"" + stretch(n, "a'\" ") + "\""; break;
  case 8: s += "a." + stretch(n, "opQ") + ".b"; break;
  case 9: s += "a" + std::string((size_t)n, ' ') + "b"; break;
  case 10: s += stretch(n, "a1_") + "_'x'"; break;
  case 11: s += "1.5e+" + stretch(n, "09") + "_" + stretch(n, "8"); break;
  default: s += stretch(n, "10") + ".eq." + stretch(n, "10"); break;
  }
  s += sx_str(1, "+a._1';", "next");
  try {
    Logical_Line ll(s);
    std::string body = ll.layout()[0].main_txt;
    same_tokens(ll.fragments(), body);
  } catch (std::runtime_error &) {
    sx_cover("rejected");
  }
}
static std::string any_case(const char *w, const char *nm) {
  std::string r;
  for (; *w; w++) {
    char set[2] = {*w, *w >= 'a' && *w <= 'z' ? (char)(*w - 32) : *w};
    r += sx_char(set, 2, nm);
  }
  return r;
}
// every keyword in any letter case, alone or with one character attached
extern "C" void lex_keyword(int from, int count) {
  int k = from + (int)sx_choose((unsigned)count, "kw");
  sx_assume(k < REF_NKW);
  std::string s = any_case(REF_KW[k].txt, "case");
  switch (sx_choose(3, "tail")) {
  case 0: break;
  case 1: s += sx_str(1, "ase1_", "c"); break;
  default: s += sx_str(1, " (,=*", "c") + "x"; break;
  }
  Logical_Line ll(s);
  same_tokens(ll.fragments(), s);
}
extern "C" void lex_pair(int from, int count) {
  int k = from + (int)sx_choose((unsigned)count, "kw");
  sx_assume(k < REF_NSMASH);
  std::string s = any_case(REF_SMASH[k].txt, "case");
  s += sx_choose(2, "tail") ? sx_str(1, "s1_", "c") : sx_str(1, " (;", "c") + "x";
  Logical_Line ll(s);
  same_tokens(ll.fragments(), s);
}
// what a line is read as does not depend on the lines before it
extern "C" void lex_leak(int n) {
  static const char *const END[] = {"x=1.0", "x=1.", "y=.5e3", "y=1.0_8", "y=2d0", "z='a'", "w=1_4", "v=a.b."};
  std::string l1 = END[sx_choose(8, "before")];
  std::string l2 = sx_str((size_t)n, "e5_d.a=", "t");
  sx_assume(!(l2[0] >= '0' && l2[0] <= '9'));
  Logical_Line before(l1);
  Logical_Line ll(l2);
  same_tokens(ll.fragments(), l2);
}
// -------------------------------------------------------------------- positions
static bool blank(char c) { return c == ' ' || c == '\t' || c == '\r'; }
static void positions(Logical_File &f, const Lines &in) {
  for (auto &l : f.lines) {
    if (!l.has_fortran()) continue;
    const Token_Text *prev = nullptr;
    for (auto it = l.fragments().begin(); it != l.fragments().end(); ++it) {
      const Token_Text &t = *it;
      int bl = t.main_txt_line(), bc = t.main_txt_col(), el = t.main_txt_eline(), ec = t.main_txt_ecol();
      auto &lay = l.layout();
      CHECK(bl >= 0 && bl <= el && el < (int)lay.size(), "token line index in range");
      CHECK(bc >= 0 && bc < (int)lay[(size_t)bl].main_txt.size() && ec > 0 && ec <= (int)lay[(size_t)el].main_txt.size(), "token column in range");
      // the text found there
      std::string got;
      if (bl == el) got = lay[(size_t)bl].main_txt.substr((size_t)bc, (size_t)(ec - bc));
      else {
        got = lay[(size_t)bl].main_txt.substr((size_t)bc);
        for (int k = bl + 1; k < el; k++) got += lay[(size_t)k].main_txt;
        got += lay[(size_t)el].main_txt.substr(0, (size_t)ec);
        sx_cover("token over several lines");
      }
      CHECK(sx_same(got, t.text()), "the text at a token's location is not the token");
      // file coordinates
      CHECK(t.start_line == lay[(size_t)bl].linenum, "line number of a token");
      const std::string &raw = in[(size_t)t.start_line - 1];
      CHECK(t.start_pos >= 1 && (size_t)t.start_pos <= raw.size(), "column of a token in range");
      size_t n = bl == el ? t.text().size() : lay[(size_t)bl].main_txt.size() - (size_t)bc;
      CHECK((size_t)t.start_pos - 1 + n <= raw.size() && sx_same(raw.substr((size_t)t.start_pos - 1, n), t.text().substr(0, n)), "the file text at a token's position is not the token");
      // order and spacing
      if (prev) {
        CHECK(prev->main_txt_eline() < bl || (prev->main_txt_eline() == bl && prev->main_txt_ecol() <= bc), "tokens out of order or overlapping");
        CHECK(prev->post_spaces() == t.pre_spaces(), "spacing after a token is not the spacing before the next");
        if (prev->main_txt_eline() == bl) {
          int sp = bc - prev->main_txt_ecol();
          CHECK(t.pre_spaces() == sp, "spacing between tokens of one line");
          for (int k = prev->main_txt_ecol(); k < bc; k++) CHECK(blank(lay[(size_t)bl].main_txt[(size_t)k]), "text between tokens");
        }
      } else
        CHECK(t.pre_spaces() == 0, "spacing before the first token");
      prev = &t;
    }
    // nothing but blanks is left out
    size_t nt = 0, nb = 0;
    for (auto &t : l.fragments())
      for (char c : t.text()) nt += !blank(c);
    for (auto &fl : l.layout())
      if (fl.is_fortran())
        for (char c : fl.main_txt) nb += !blank(c);
    CHECK(nt == nb, "text not covered by tokens");
  }
}
static std::string pos_line(int i, int n) {
  switch (sx_choose(9, "shape")) {
  case 0: return "  x = a" + sx_str(1, " b", "g") + "&";
  case 1: return sx_str(1, " &", "lead") + sx_str(1, " c", "m") + " + endif" + sx_str(1, " &", "t");
  case 2: return "  ! note";
  case 3: return "";
  case 4: return " s='a" + sx_str(1, " b", "q") + "&";
  case 5: return "  &c" + sx_str(1, " '", "q") + "'" + sx_str(1, " &", "t");
  case 6: return sx_str(1, " 1", "lab") + "0 y = en&";
  case 7: return " &" + sx_str(1, "d ", "m") + "do ;" + sx_str(1, " \tz", "g") + "=1";
  default: return "&" + sx_str(1, "& ", "t");
  }
}
extern "C" void pos_free(int k) {
  Lines in;
  for (int i = 0; i < k; i++) in.push_back(pos_line(i, k));
  // a character literal is continued by a line that starts with an ampersand
  char ctx = '\0';
  bool cont = false, lit = false;
  for (auto &s : in) {
    RefLine r = ref_free(s, ctx, cont, lit);
    if (r.kind == RefLine::STMT) {
      sx_assume(!ctx || r.amp_in);
      ctx = r.open;
      cont = r.amp_out;
    }
  }
  Logical_File f;
  if (!f.scan(in, "t.f90", 0, File_Type::FREEFMT)) {
    sx_cover("rejected");
    return;
  }
  positions(f, in);
}
extern "C" void pos_chars(int n) {
  Lines in{sx_str((size_t)n, " a=1.'(", "t")};
  Logical_File f;
  if (!f.scan(in, "t.f90", 0, File_Type::FREEFMT)) return;
  positions(f, in);
}
extern "C" void pos_pair(int from, int count) {
  int k = from + (int)sx_choose((unsigned)count, "kw");
  sx_assume(k < REF_NSMASH);
  std::string w = REF_SMASH[k].txt;
  unsigned cut = sx_choose((unsigned)w.size(), "cut"); // split over two lines after `cut` characters
  Lines in;
  if (cut == 0) in = {"  " + w + sx_str(1, " (", "c") + "x"};
  else in = {" " + w.substr(0, cut) + "&", "   &" + w.substr(cut) + sx_str(1, " (", "c") + "x"};
  Logical_File f;
  CHECK(f.scan(in, "t.f90", 0, File_Type::FREEFMT), "accepted");
  positions(f, in);
}
static std::string posf_line() {
  switch (sx_choose(6, "shape")) {
  case 0: return "      x = a" + sx_str(1, " b", "g");
  case 1: return "     " + sx_str(1, "&1", "c") + sx_str(1, " c", "m") + " + endif";
  case 2: return "c note";
  case 3: return "   10 s='a" + sx_str(1, " b", "q");
  case 4: return "     &c" + sx_str(1, " '", "q") + "'";
  default: return " 20   en";
  }
}
extern "C" void pos_fixed(int k) {
  Lines in;
  for (int i = 0; i < k; i++) in.push_back(posf_line());
  sx_assume(ref_fixed_ok(in[0]) && !(in[0].size() > 5 && in[0][0] == ' ' && in[0][5] != ' ' && in[0][4] == ' '));
  Logical_File f;
  CHECK(f.scan(in, "t.f", 72, File_Type::FIXEDFMT), "accepted");
  positions(f, in);
}
// ------------------------------------------------------------------- statements
// the statements of a text: token runs between semicolons
static std::vector<std::vector<RefTok>> ref_stmts(const RefLex &r, int &semis) {
  std::vector<std::vector<RefTok>> v(1);
  semis = 0;
  for (auto &t : r.out)
    if (t.tag == Syntax_Tags::TK_SEMICOLON) {
      semis++;
      v.emplace_back();
    } else
      v.back().push_back(t);
  std::vector<std::vector<RefTok>> w;
  for (auto &x : v)
    if (!x.empty()) w.push_back(x);
  return w;
}
static void same_stmts(const Logical_Line &ll, const std::vector<std::vector<RefTok>> &w) {
  CHECK(ll.stmts().size() == w.size(), "number of statements");
  for (size_t i = 0; i < w.size(); i++) {
    TT_Range r = ll.stmts()[i];
    CHECK(r.size() == w[i].size(), "number of tokens of a statement");
    size_t k = 0;
    for (auto it = r.begin(); it != r.end(); ++it, ++k) {
      CHECK(k < w[i].size(), "a statement runs on");
      CHECK(sx_same(it->text(), w[i][k].txt), "token of a statement");
    }
    CHECK(k == w[i].size(), "a statement is cut short");
  }
}
static void stmt_line(const std::string &s) {
  Logical_Line ll(s);
  std::string body = ll.layout()[0].main_txt;
  RefLex r(body);
  int semis;
  auto w = ref_stmts(r, semis);
  CHECK(ll.has_stmts() && ll.num_semicolons() == semis, "number of semicolons");
  CHECK(ll.is_compound() == (w.size() > 1), "compound line");
  CHECK(ll.has_empty_statements() == (semis > 0 && semis + 1 > (int)w.size()), "empty statements");
  same_stmts(ll, w);
  if (w.size() > 1) sx_cover("compound");
  if (w.empty()) sx_cover("no statement");
  // copies stand on their own
  Logical_Line c(ll), a;
  a = ll;
  for (Logical_Line *x : {&c, &a}) {
    same_stmts(*x, w);
    for (size_t i = 0; i < x->stmts().size(); i++)
      for (auto it = x->stmts()[i].cbegin(); it != x->stmts()[i].cend(); ++it) {
        bool own = false;
        for (auto &t : x->fragments()) own |= &t == &*it;
        CHECK(own, "a copy's statement refers to the tokens of the original");
      }
    CHECK(x->label == ll.label && x->num_semicolons() == semis, "a copy differs");
  }
}
extern "C" void stmt_chars(int n, int lab) {
  std::string s = sx_str((size_t)n, " a;=';", "t");
  try {
    stmt_line((lab ? "10 " : "b") + s);
  } catch (std::runtime_error &) {
    sx_cover("rejected");
  }
}
// the statement list of a file
extern "C" void stmt_file(int k) {
  Lines in;
  struct L { int kind; int label; int n; };
  std::vector<L> ls;
  for (int i = 0; i < k; i++) {
    switch (sx_choose(8, "line")) {
    case 0: in.push_back(" ! c"); ls.push_back({0, 0, 0}); break;
    case 1: in.push_back("#if x"); ls.push_back({0, 0, 0}); break;
    case 2: in.push_back("x=1"); ls.push_back({1, 0, 1}); break;
    case 3: {
      std::string d = sx_str(2, "12", "lab");
      in.push_back(d + " y=2; z=3");
      ls.push_back({1, (d[0] - '0') * 10 + (d[1] - '0'), 2});
      break;
    }
    case 4: in.push_back(";"); ls.push_back({0, 0, 0}); break;
    case 5: in.push_back("30 a=1;;b=2;c=3;"); ls.push_back({1, 30, 3}); break;
    case 6: in.push_back("include 'f'"); ls.push_back({0, 0, 0}); break;
    default: in.push_back(""); ls.push_back({0, 0, 0}); break;
    }
  }
  Logical_File f;
  CHECK(f.scan(in, "t.f90", 0, File_Type::FREEFMT), "accepted");
  f.make_stmts();
  // expected statements, each with the physical lines that precede it
  auto it = f.ll_stmts.begin();
  int from = 1;
  for (int i = 0; i < k; i++) {
    if (!ls[(size_t)i].kind) continue;
    for (int q = 0; q < ls[(size_t)i].n; q++) {
      CHECK(it != f.ll_stmts.end(), "a statement is missing");
      CHECK(!it->empty() && it->linenum() == i + 1 && it->it()->start_line() == i + 1, "a statement of the wrong line");
      CHECK(it->label() == (q == 0 ? ls[(size_t)i].label : 0), "label of a statement");
      CHECK(it->has_label() == (it->label() > 0), "label of a statement");
      CHECK(it->is_compound() == (ls[(size_t)i].n > 1 ? q + 1 : 0), "sequence number in a compound line");
      CHECK(it->in_compound() == (ls[(size_t)i].n > 1), "compound");
      CHECK(it->begin() == it->ll().stmts()[(size_t)q].begin() && it->end() == it->ll().stmts()[(size_t)q].end(), "range of a statement");
      // the lines before it
      int at = from;
      if (q == 0) {
        for (auto &p : it->prefix_lines) {
          CHECK(p->start_line() == at, "lines before a statement");
          at = p->end_line();
        }
        CHECK(at == i + 1, "lines before a statement");
        if (it->prefix_lines.size()) sx_cover("prefix");
        CHECK(it->prefix_ll_begin()->start_line() == from, "start of a statement's lines");
      } else
        CHECK(it->prefix_lines.empty(), "lines before a statement");
      ++it;
    }
    from = i + 2;
  }
  CHECK(it == f.ll_stmts.end(), "too many statements");
}
