// Editing through the view of a procedure (P18): the file, the view and the
// view of the printed file read again all show the edit and nothing else.
#include "edit_util.h"
#include "flpr/Parsed_File.hh"
#include "flpr/Procedure.hh"
#include "flpr/Procedure_Visitor.hh"
using PF = Parsed_File<>;
using Proc = Procedure<PF>;
using FLPR::Procedure_Visitor;
#define TAG(x) Syntax_Tags::x
enum { KSUB, KFUN, KPROG, KHEADLESS, KMP };
struct Item {
  std::string text; // of a statement, or a comment
  int region;       // -1: a comment, -2: a statement outside the procedure
  bool joined = false; // shares the line of the statement before it
  int label = 0;
};
struct Src {
  int kind;
  std::vector<Item> items;
  std::string name;
};
static std::string lower_of(const std::string &s) {
  std::string r = s;
  for (char &c : r)
    if (c >= 'A' && c <= 'Z') c = (char)(c - 'A' + 'a');
  return r;
}
static Lines lines_of(const Src &s) {
  Lines r;
  for (auto &i : s.items)
    if (i.joined) r.back() += "; " + i.text;
    else r.push_back(i.label ? std::to_string(i.label) + " " + i.text : i.text);
  return r;
}
static Toks words(const std::string &s) {
  Toks r;
  std::string cur;
  auto end = [&] {
    if (!cur.empty()) r.push_back(cur);
    cur.clear();
  };
  for (char c : s)
    if (c == ' ') end();
    else if (c == '!') break;
    else if (c == '(' || c == ')' || c == '=' || c == ':' || c == ',') {
      end();
      if (c == ':' && !r.empty() && r.back() == ":") r.back() = "::";
      else r.push_back(std::string(1, c));
    } else
      cur += c;
  end();
  return r;
}
static Src source(int kind, int shape, bool ends) {
  Src s;
  s.kind = kind;
  auto put = [&](const std::string &t, int r, int label = 0) { s.items.push_back({t, r, false, label}); };
  auto join = [&](const std::string &t, int r) { s.items.push_back({t, r, true, 0}); };
  auto note = [&](const char *t) { s.items.push_back({t, -1, false, 0}); };
  s.name = kind == KHEADLESS ? "" : std::string("n") + sx_char("jz", 2, "name");
  if (kind == KMP) put("module m", -2), put("contains", -2);
  if (shape == 0) note("! head");
  if (kind == KSUB) put("subroutine " + s.name + "(a)", Proc::PROC_BEGIN);
  if (kind == KFUN) put("pure integer function " + s.name + "(a)", Proc::PROC_BEGIN);
  if (kind == KPROG) put("program " + s.name, Proc::PROC_BEGIN);
  if (kind == KMP) put("module procedure " + s.name, Proc::PROC_BEGIN);
  bool u = false, im = false, ip = false, d = false, e = false, c = false;
  unsigned bits;
  switch (shape) {
  case 0: bits = 63; break;
  case 1: bits = 0; break;
  default: bits = sx_choose(64, "parts");
  }
  u = bits & 1, im = bits & 2, ip = bits & 4, d = bits & 8, e = bits & 16, c = bits & 32;
  if (u) {
    if (shape == 0) note("! uses");
    put("use a", Proc::USES);
    if (shape == 0) join("use b, only: x", Proc::USES);
  }
  if (im) put("import x", Proc::IMPORTS);
  if (ip) put("implicit none", Proc::IMPLICITS);
  if (d) {
    if (shape == 0) note("! declarations");
    put("integer :: i", Proc::DECLS);
    if (shape == 0) note("! more"), put("save", Proc::DECLS);
  }
  if (e) {
    if (shape == 0) note("! body"), note("! of it");
    put("x = 1", Proc::EXECUTION_PART, shape == 0 ? 10 : 0);
    if (shape == 0) join("call s", Proc::EXECUTION_PART), note("! last"), put("continue", Proc::EXECUTION_PART, 20);
  }
  if (c) {
    put("contains", Proc::CONTAINED);
    put("subroutine in", Proc::CONTAINED);
    put("end", Proc::CONTAINED);
  }
  if (shape == 0) note("! tail");
  const char *kw = kind == KSUB ? "subroutine" : kind == KFUN ? "function" : kind == KMP ? "procedure" : "program";
  unsigned form = ends ? sx_choose(kind == KHEADLESS ? 3 : 5, "end form") : 0;
  std::string t = form == 0 ? "end" : form == 1 ? std::string("end ") + kw : form == 2 ? std::string("end") + kw : std::string(form == 3 ? "end " : "END ") + kw + " " + s.name;
  if (ends && form != 2 && sx_choose(2, "comment")) t += " ! done";
  put(t, Proc::PROC_END, shape == 0 ? 30 : 0);
  if (kind == KMP) put("end module", -2);
  else put("subroutine next", -2), put("end", -2);
  return s;
}
// "endsubroutine" is two tokens, too
static Toks toks_of(const Item &i) {
  Toks w = words(i.text);
  if (w[0].size() > 3 && w[0].compare(0, 3, "end") == 0) {
    w.insert(w.begin() + 1, w[0].substr(3));
    w[0] = "end";
  }
  return w;
}
static std::string text_of(const Lines &l) {
  std::string t;
  for (auto &s : l) t += s + "\n";
  return t;
}
static Toks toks_of(const LL_Stmt &s) {
  Toks r;
  for (auto it = s.cbegin(); it != s.cend(); ++it) r.push_back(it->text());
  return r;
}
// the view shows exactly the statements of the source, part by part
static void check_view(const Proc &p, const Src &s, const char *what) {
  sx_note(what);
  for (int r = 0; r < Proc::NUM_REGION_TAG; r++) {
    Proc::Region_Tag tag = (Proc::Region_Tag)r;
    auto range = p.crange(tag);
    auto it = range.begin();
    size_t n = 0;
    for (auto &i : s.items) {
      if (i.region != r) continue;
      n++;
      CHECK(n <= range.size(), "a statement is missing from its part");
      CHECK(same_list(toks_of(*it), toks_of(i)), "statement of a part");
      CHECK(it->label() == i.label, "label of a statement of a part");
      ++it;
    }
    CHECK(n == range.size(), "number of statements of a part");
    CHECK(p.has_region(tag) == (n > 0), "a part is there or not");
  }
  CHECK(sx_same(p.name(), s.name), "name of the procedure");
  CHECK(p.headless_main_program() == (s.kind == KHEADLESS && s.name.empty()), "main program without a program statement");
}
struct First { // the first procedure visited
  PF::Prgm_Cursor c;
  bool got = false;
  bool operator()(PF &, PF::Prgm_Cursor x, bool internal, bool) {
    if (!got) {
      got = true;
      c = x;
    }
    return false;
  }
};
static PF::Prgm_Cursor first_of(PF &f) {
  First a;
  Procedure_Visitor<PF, First> v(f, a);
  v.visit();
  CHECK(a.got, "the procedure is found");
  return a.c;
}
static bool is_comment(const std::string &s) {
  size_t k = 0;
  while (k < s.size() && s[k] == ' ') k++;
  return k < s.size() && s[k] == '!';
}
static std::string squeeze(const std::string &s) {
  std::string r;
  for (char c : s) {
    if (c == '!') break;
    if (c != ' ') r += c;
  }
  return r;
}
static void check_file(PF &f, const Src &s) {
  // the statements in order, the comments in between, and each line's label
  Lines got = printed(f.logical_file());
  size_t k = 0;
  std::string line;
  for (size_t g = 0; g < got.size(); g++) {
    CHECK(rtrim(got[g]).size() == got[g].size(), "a line without trailing blanks");
    if (is_comment(got[g])) {
      CHECK(k < s.items.size() && s.items[k].region == -1, "a comment is where it was");
      size_t b = got[g].find('!');
      CHECK(sx_same(got[g].substr(b), s.items[k].text), "text of a comment");
      k++;
      continue;
    }
    std::string want;
    CHECK(k < s.items.size() && s.items[k].region != -1, "a comment is lost or moved");
    if (s.items[k].label) want = std::to_string(s.items[k].label);
    want += squeeze(s.items[k].text);
    std::string tail;
    auto note_of = [&](const std::string &t) {
      size_t b = t.find('!');
      if (b != std::string::npos) tail = t.substr(b);
    };
    note_of(s.items[k].text);
    k++;
    while (k < s.items.size() && s.items[k].joined) {
      want += ";" + squeeze(s.items[k].text);
      note_of(s.items[k].text);
      k++;
    }
    sx_note(got[g].c_str());
    CHECK(sx_same(squeeze(got[g]), want), "text of a line");
    size_t b = got[g].find('!');
    CHECK(sx_same(b == std::string::npos ? "" : got[g].substr(b), tail), "comment of a line");
  }
  CHECK(k == s.items.size(), "a line is lost");
  // the statements of the file are those of its lines
  auto it = f.statements().begin();
  for (auto &i : s.items) {
    if (i.region == -1) continue;
    CHECK(it != f.statements().end(), "a statement is lost");
    CHECK(same_list(toks_of(*it), toks_of(i)), "statement of the file");
    CHECK(it->label() == i.label, "label of a statement");
    CHECK(!it->stmt_tree().empty(), "a statement has a tree");
    ++it;
  }
  CHECK(it == f.statements().end(), "number of statements");
  for (auto &l : f.logical_lines()) {
    check_places(l);
    check_stmts(l);
  }
}
static const char *NEW_TEXT[] = {nullptr, "use q", "import q", "implicit none", "real :: q", "call q(1)", nullptr, nullptr};
static const int NEW_TAG[] = {0, TAG(SG_USE_STMT), TAG(SG_IMPORT_STMT), TAG(SG_IMPLICIT_STMT), TAG(SG_TYPE_DECLARATION_STMT), TAG(SG_CALL_STMT), 0, 0};
// index of the n-th statement of a part (or of what follows the part)
static size_t find(const Src &s, int region, int n) {
  for (size_t k = 0; k < s.items.size(); k++) {
    int r = s.items[k].region;
    if (r < 0) continue;
    if (r > region) return k;
    if (r == region && n-- == 0) return k;
  }
  CHECK(false, "harness: place");
  return 0;
}
static int count(const Src &s, int region) {
  int n = 0;
  for (auto &i : s.items) n += i.region == region;
  return n;
}
static void separate(Src &s, size_t k) { // the line of statement k begins with it
  s.items[k].joined = false;
}
static void isolate(Src &s, size_t k) {
  s.items[k].joined = false;
  if (k + 1 < s.items.size()) s.items[k + 1].joined = false;
}
static void op_emplace(PF &f, Proc &p, Src &s) {
  int r = (int)sx_choose(5, "part") + 1, n = count(s, r);
  int at = (int)sx_choose((unsigned)n + 1, "where");
  bool above = sx_choose(2, "before prefix") == 1;
  size_t k = find(s, r, at);
  Proc::Region_Tag tag = (Proc::Region_Tag)r;
  auto pos = p.begin(tag);
  if (at == n && sx_choose(2, "end")) pos = p.end(tag);
  else
    for (int i = 0; i < at; i++) ++pos;
  auto it = p.emplace_stmt(pos, Logical_Line{NEW_TEXT[r]}, NEW_TAG[r], above);
  CHECK(it.get_region() == tag, "part of the new statement");
  CHECK(same_list(toks_of(*it), words(NEW_TEXT[r])), "the new statement is returned");
  CHECK(it->syntax_tag() == NEW_TAG[r], "kind of the new statement");
  separate(s, k);
  if (above)
    while (k > 0 && s.items[k - 1].region == -1) k--;
  s.items.insert(s.items.begin() + (long)k, Item{NEW_TEXT[r], r, false, 0});
  sx_cover("emplace");
}
static void op_rename(Proc &p, Src &s) {
  std::string name = std::string("n") + sx_char("jz", 2, "new name") + (sx_choose(2, "longer") ? "xyz" : "");
  bool same = sx_same(name, s.name);
  if (same) name = s.name;
  bool r = p.rename(name);
  CHECK(r == !same, "renaming reports a change");
  if (s.name.empty()) {
    size_t k = find(s, Proc::PROC_BEGIN, 0); // what follows
    s.items.insert(s.items.begin() + (long)k, Item{"program " + name, Proc::PROC_BEGIN, false, 0});
  } else
    for (auto &i : s.items)
      if (i.region == Proc::PROC_BEGIN || i.region == Proc::PROC_END) {
        size_t b = i.text.find(" " + s.name);
        if (b != std::string::npos) i.text = i.text.substr(0, b + 1) + name + i.text.substr(b + 1 + s.name.size());
      }
  s.name = name;
  sx_cover("rename");
}
static void op_complete(Proc &p, Src &s) {
  size_t k = find(s, Proc::PROC_END, 0);
  Toks t = toks_of(s.items[k]);
  std::string more, kw = s.kind == KSUB ? "subroutine" : s.kind == KFUN ? "function" : s.kind == KMP ? "procedure" : "program";
  if (t.size() < 2) more += " " + kw;
  if (t.size() < 3 && !s.name.empty()) more += " " + s.name;
  bool r = p.complete_end_stmt();
  CHECK(r == !more.empty(), "completing the end statement reports a change");
  std::string &x = s.items[k].text;
  size_t b = x.find(" !");
  x = (b == std::string::npos ? x : x.substr(0, b)) + more + (b == std::string::npos ? "" : x.substr(b));
  sx_cover("complete");
}
static void op_replace(Proc &p, Src &s) {
  int r = (int)sx_choose(5, "part") + 1, n = count(s, r);
  sx_assume(n > 0);
  int at = (int)sx_choose((unsigned)n, "where");
  size_t k = find(s, r, at);
  Proc::Region_Tag tag = (Proc::Region_Tag)r;
  auto pos = p.begin(tag);
  for (int i = 0; i < at; i++) ++pos;
  auto it = p.replace_stmt(pos, NEW_TEXT[r], NEW_TAG[r]);
  CHECK(it.get_region() == tag && it == pos, "the replaced statement is returned");
  isolate(s, k);
  s.items[k].text = NEW_TEXT[r];
  sx_cover("replace");
}
// a procedure of a kind, its parts (0 all, 1 none, 2 any of them), n edits
// (the first one given or any), all forms of the end statement or one
extern "C" void proc_edit(int kind, int shape, int n, int first, int ends) {
  Src s = source(kind, shape, ends);
  SxIn in(text_of(lines_of(s)));
  PF f(in.is(), "t.f90", 0, File_Type::FREEFMT);
  f.parse_tree();
  CHECK(bool(f), "the source is read");
  Proc p(f);
  CHECK(p.ingest(first_of(f)), "the procedure is taken in");
  check_view(p, s, "before");
  for (int i = 0; i < n; i++) {
    switch (i == 0 && first >= 0 ? (unsigned)first : sx_choose(4, "edit")) {
    case 0: op_emplace(f, p, s); break;
    case 1: op_rename(p, s); break;
    case 2: op_complete(p, s); break;
    default: op_replace(p, s);
    }
  }
  check_file(f, s);
  check_view(p, s, "after");
  std::vector<int> labels, want;
  p.scan_out_labels(std::back_inserter(labels));
  for (auto &i : s.items)
    if (i.region >= 0 && i.label) want.push_back(i.label);
  CHECK(labels == want, "labels of the procedure");
  // and so does the printed file
  SxIn again(text_of(printed(f.logical_file())));
  PF g(again.is(), "t.f90", 0, File_Type::FREEFMT);
  g.parse_tree();
  CHECK(bool(g), "the printed file is read");
  Proc q(g);
  CHECK(q.ingest(first_of(g)), "the procedure of the printed file");
  check_view(q, s, "printed");
}
