// Reading files (P26): a file object holds the file it was given, in its form,
// whichever way it was read and whatever it held before.
#include "edit_util.h"
#include "flpr/Parsed_File.hh"
#include "flpr/Stmt_Parser_Exts.hh"
using PF = Parsed_File<>;
namespace {
File_Type const TYPES[] = {File_Type::UNKNOWN, File_Type::FIXEDFMT, File_Type::FREEFMT};
// everything visible of a file, in one text
void add(std::string &s, const std::string &t) { s += t + "\n"; }
std::string num(int v) {
  std::string r;
  bool neg = v < 0;
  do r.insert(r.begin(), (char)('0' + (neg ? -(v % 10) : v % 10)));
  while (v /= 10);
  return neg ? "-" + r : r;
}
std::string lines_of(const Logical_File &f) {
  std::string s;
  add(s, "lines " + num((int)f.num_input_lines) + (f.has_flpr_pp ? " pp" : ""));
  add(s, f.file_type() == File_Type::FIXEDFMT ? "fixed" : f.file_type() == File_Type::FREEFMT ? "free" : "unknown");
  if (f.file_info) add(s, f.file_info->filename + " " + num(f.file_info->file_type == File_Type::FIXEDFMT ? f.file_info->last_fixed_column : 0));
  for (auto &l : f.lines) {
    CHECK(l.file_info == f.file_info, "a line knows its file");
    std::string h = "line";
    h += num(l.label) + (l.is_compound() ? "c" : "") + (l.needs_reformat ? "r" : "");
    add(s, h);
    for (auto &fl : l.layout()) {
      SxOut o;
      o.os() << fl;
      add(s, num(fl.linenum) + (fl.is_comment() ? "!" : fl.is_blank() ? "_" : fl.is_fortran() ? "f" : "#") + (fl.is_continued() ? "&" : "") + (fl.is_continuation() ? "+" : "") + (fl.has_label() ? "l" : "") + ">" + o.str());
    }
    for (auto &t : l.fragments()) add(s, "." + num(t.token) + t.text());
    for (auto &v : l.stmts()) {
      std::string e = "stmt";
      for (auto &t : v) e += " " + t.text();
      add(s, e);
    }
  }
  return s;
}
std::string stmts_of(Logical_File &f, LL_STMT_SEQ &seq) {
  std::string s;
  for (auto &x : seq) {
    bool in = false;
    for (auto it = f.lines.begin(); it != f.lines.end(); ++it)
      if (&*it == &x.ll()) in = true;
    CHECK(in, "a statement is on a line of the file");
    if (!in) return s;
    std::string e = "ll" + num(x.label()) + " " + num(x.is_compound()) + (x.has_hook() ? "h" : "");
    for (auto &p : x.prefix_lines) e += "p" + num((int)p->layout().size());
    for (auto it = x.begin(); it != x.end(); ++it) e += " " + it->text();
    add(s, e);
  }
  return s;
}
template <class N> void tree_of(std::string &s, N &n, int d) {
  std::string e = num(d) + " " + num(n->syntag());
  if (n.is_leaf() && n->is_stmt()) {
    for (auto it = n->ll_stmt().begin(); it != n->ll_stmt().end(); ++it) e += " " + it->text();
    CHECK(n->ll_stmt().get_hook() == (void *)&n, "the statement of a node leads to the node");
  }
  add(s, e);
  if (!n.is_leaf())
    for (auto &b : n.branches()) tree_of(s, b, d + 1);
}
std::string tree_of(PF &f) {
  std::string s;
  auto &t = f.parse_tree();
  if (!t.empty()) tree_of(s, *t, 0);
  for (auto it = f.statements().begin(); it != f.statements().end(); ++it) {
    auto c = f.stmt_to_node_cursor(it);
    CHECK(&c->ll_stmt() == &*it, "the node of a statement is the statement's");
  }
  return s;
}
void note(std::string s) {
  for (auto &c : s)
    if (c == '\n') c = '/';
  sx_note(s.c_str());
}
// a text of one of several kinds; each is good in the form, or is not
struct Text {
  Lines l;
  bool scans, parses, newline;
  std::string text() const {
    std::string s;
    for (auto &x : l) s += x + "\n";
    if (!newline && !s.empty()) s.pop_back();
    return s;
  }
};
Text text(bool fixed, unsigned which, const char *name, const char *set = "abcdefghijklmnopqrstuvwxyz") {
  std::string c = sx_str(1, set, name);
  std::string b = fixed ? "      " : "";
  Text t{{}, true, true, true};
  switch (which) {
  case 0: t.l = {b + "subroutine s" + c, b + c + " = 1; call " + c, b + "end"}; break;
  case 1: t.l = {"! note " + c, b + "if (" + c + (fixed ? "" : "&"), fixed ? "     & ) goto 10" : " & ) goto 10", "", fixed ? "10    continue" : "10 continue", b + "end"}; break;
  case 2: t.l = {}; break;
  case 3: t.l = {"", "! only " + c}; break;
  case 4: // does not parse
    t.l = {b + "end if", b + c + " = 1"};
    t.parses = false;
    break;
  case 5: // is no Fortran text
    t.l = {b + "x = " + c, fixed ? "!#flprxyz literal" : "y = 'open", b + "end"};
    t.scans = t.parses = false;
    break;
  case 6: t.l = {"#define " + c + " \\", " more", "#ifdef " + c, b + "end program " + c, "#endif"}; break;
  case 7: t.l = {"!#flpr " + c, b + "x = 1", b + "end"}; break;
  case 8: t.l = {b + "end"}; break;
  case 9: t.l = {b + "call " + c, b + "end", "  "}; break;
  default: t.l = {b + "program p", b + "do 10 " + c + " = 1, 2", (fixed ? "10    " : "10 ") + std::string("continue"), b + "end program p", "", ""}; break;
  }
  return t;
}
unsigned const NTEXT = 11;
const char *name_of(bool fixed) { return fixed ? "a.f" : "a.f90"; }
int last_of(bool fixed) { return fixed ? 72 : 0; }
} // namespace
// The form of a file follows from the request, or else from its name.
extern "C" void read_kind(int n) {
  unsigned req = sx_choose(3, "requested form");
  std::string name = "m" + sx_str((size_t)n, ".fF90x", "name");
  sx_note(name.c_str());
  sx_file(name, "c = 1\n");
  std::string ext;
  size_t dot = name.rfind('.');
  File_Type want = TYPES[req];
  if (!req && dot != std::string::npos) {
    ext = name.substr(dot + 1);
    if (sx_same(ext, "f") || sx_same(ext, "F")) want = File_Type::FIXEDFMT;
    else if (sx_same(ext, "f90") || sx_same(ext, "F90")) want = File_Type::FREEFMT;
  }
  bool good = want != File_Type::UNKNOWN;
  auto check = [&](bool ok, Logical_File &f) {
    CHECK(ok == good, "a file is read if its form is known");
    CHECK(f.file_info && sx_same(f.file_info->filename, name), "the name of the file");
    if (!ok || !f.file_info) return;
    CHECK(f.file_type() == want && f.is_fixed_format() == (want == File_Type::FIXEDFMT), "the form of the file");
    f.make_stmts();
    CHECK(f.lines.size() == 1 && f.num_input_lines == 1, "the line of the file");
    CHECK(f.ll_stmts.size() == (want == File_Type::FREEFMT ? 1u : 0u), "the form the file is read in");
  };
  switch (sx_choose(4, "way")) {
  case 0: {
    Logical_File f;
    bool ok = f.read_and_scan(name, 72, TYPES[req]);
    check(ok, f);
    break;
  }
  case 1: {
    Logical_File f;
    bool ok = f.scan({"c = 1"}, name, 72, TYPES[req]);
    check(ok, f);
    break;
  }
  case 2: {
    PF f(name, 72, TYPES[req]);
    check((bool)f, f.logical_file());
    break;
  }
  default: {
    SxIn in("c = 1\n");
    PF f(in.is(), name, 72, TYPES[req]);
    check((bool)f, f.logical_file());
  }
  }
  if (good) sx_cover("read");
  else sx_cover("refused");
}
// The same content is the same file, however it is read.
extern "C" void read_same(int fixed, int which) {
  Text t = text(fixed, (unsigned)which, "letter");
  t.newline = !sx_choose(2, "no newline at the end");
  while (!t.newline && !t.l.empty() && t.l.back().empty()) t.l.pop_back();
  std::string txt;
  for (size_t i = 0; i < t.l.size(); i++) txt += t.l[i] + (i + 1 < t.l.size() || t.newline ? "\n" : "");
  note(txt);
  std::string name = name_of(fixed);
  sx_file(name, txt);
  int last = last_of(fixed);
  Logical_File a;
  bool ok = a.scan(t.l, name, last);
  CHECK(ok == t.scans, "a text that can be read is read");
  std::string missing = std::string("none") + (fixed ? ".f" : ".f90");
  unsigned way = sx_choose(7, "way");
  if (way == 6) { // no such file
    Logical_File f;
    CHECK(!f.read_and_scan(missing, last) && f.lines.empty() && f.ll_stmts.empty(), "a file that does not exist");
    PF p(missing, last), q;
    CHECK(!p && !q, "a file that does not exist");
    CHECK(!q.read_file(missing, last, File_Type::FREEFMT) && !q, "a file that does not exist");
    CHECK(p.statements().empty() && p.logical_lines().empty() && p.parse_tree().empty(), "a file that does not exist");
    CHECK(!p.prefetch_statements() && !p.prefetch_parse_tree(), "a file that does not exist");
    return;
  }
  SxIn in(txt);
  if (way < 3) {
    Logical_File b;
    bool r = way == 0 ? b.read_and_scan(in.is(), name, last) : way == 1 ? b.read_and_scan(name, last) : b.scan(t.l, name, last, fixed ? File_Type::FIXEDFMT : File_Type::FREEFMT);
    CHECK(r == ok, "the outcome depends on the way of reading");
    if (!r) return;
    CHECK(sx_same(lines_of(a), lines_of(b)), "the lines depend on the way of reading");
    a.make_stmts();
    b.make_stmts();
    CHECK(sx_same(stmts_of(a, a.ll_stmts), stmts_of(b, b.ll_stmts)), "the statements depend on the way of reading");
  } else {
    PF p = way == 3 ? PF(in.is(), name, last) : way == 4 ? PF(name, last) : PF();
    if (way == 5) {
      CHECK(!p, "nothing has been read");
      bool r = p.read_file(name, last);
      CHECK(r == ok, "the outcome depends on the way of reading");
    }
    CHECK((bool)p == ok, "the outcome depends on the way of reading");
    if (!ok) return;
    CHECK(sx_same(lines_of(a), lines_of(p.logical_file())), "the lines depend on the way of reading");
    a.make_stmts();
    CHECK(p.prefetch_statements(), "statements are built");
    CHECK(sx_same(stmts_of(a, a.ll_stmts), stmts_of(p.logical_file(), p.statements())), "the statements depend on the way of reading");
    CHECK(p.prefetch_parse_tree() == t.parses && (bool)p == t.parses, "a file that does not parse is known to be bad");
    if (t.parses) tree_of(p);
  }
}
// What was read before leaves nothing behind.
extern "C" void read_again(int fixed, int which) {
  bool f0 = sx_choose(2, "earlier form");
  Text t0 = text(f0, sx_choose(NTEXT, "earlier text"), "earlier letter", "b");
  Text t = text(fixed, (unsigned)which, "letter", "acd");
  std::string txt0, txt;
  for (auto &x : t0.l) txt0 += x + "\n";
  for (auto &x : t.l) txt += x + "\n";
  note(txt0 + "-> " + txt);
  std::string n0 = std::string("first") + (f0 ? ".f" : ".f90"), n = name_of(fixed);
  int last = last_of(fixed);
  Logical_File a;
  CHECK(a.scan(t.l, n, last) == t.scans, "a text that can be read is read");
  if (!t.scans) return;
  if (sx_choose(2, "parsed file")) {
    sx_file(n0, txt0);
    sx_file(n, txt);
    PF p;
    unsigned how = sx_choose(3, "how it failed");
    if (how == 0) {
      p.read_file("first.x", last);
    } else if (how == 1) {
      sx_assume(!t0.scans);
      p.read_file(n0, last_of(f0));
    } else {
      sx_assume(t0.scans && !t0.parses);
      CHECK(p.read_file(n0, last_of(f0)), "a text that can be read is read");
      p.prefetch_parse_tree();
    }
    CHECK(!p, "a bad file is known to be bad");
    if (sx_choose(2, "ask")) {
      p.statements();
      p.parse_tree();
    }
    CHECK(p.read_file(n, last), "a good file is read after a bad one");
    CHECK((bool)p, "a good file is read after a bad one");
    CHECK(sx_same(lines_of(a), lines_of(p.logical_file())), "the lines depend on what was read before");
    a.make_stmts();
    CHECK(sx_same(stmts_of(a, a.ll_stmts), stmts_of(p.logical_file(), p.statements())), "the statements depend on what was read before");
    CHECK(p.prefetch_parse_tree() == t.parses, "a file that does not parse is known to be bad");
    if (!t.parses) return;
    SxIn in(txt);
    PF q(in.is(), n, last);
    CHECK(sx_same(tree_of(q), tree_of(p)), "the tree depends on what was read before");
    sx_cover("parsed file");
    return;
  }
  Logical_File b;
  CHECK(b.scan(t0.l, n0, last_of(f0)) == t0.scans, "a text that can be read is read");
  if (sx_choose(2, "statements")) b.make_stmts();
  SxIn in(txt);
  bool ok = sx_choose(2, "from a stream") ? b.read_and_scan(in.is(), n, last) : b.scan(t.l, n, last);
  CHECK(ok, "a good file is read after another one");
  CHECK(b.ll_stmts.empty(), "there are no statements before they are made");
  CHECK(sx_same(lines_of(a), lines_of(b)), "the lines depend on what was read before");
  a.make_stmts();
  b.make_stmts();
  CHECK(sx_same(stmts_of(a, a.ll_stmts), stmts_of(b, b.ll_stmts)), "the statements depend on what was read before");
  // asking again for the statements changes nothing
  std::string s = stmts_of(b, b.ll_stmts);
  b.make_stmts();
  CHECK(sx_same(s, stmts_of(b, b.ll_stmts)), "the statements are made again");
  sx_cover("logical file");
}
// A file that is moved is the same file.
extern "C" void read_moved(int fixed, int which) {
  Text t = text(fixed, (unsigned)which, "letter");
  std::string txt;
  for (auto &x : t.l) txt += x + "\n";
  note(txt);
  std::string n = name_of(fixed);
  int last = last_of(fixed);
  SxIn in(txt), in2(txt);
  PF p(in.is(), n, last), q(in2.is(), n, last);
  unsigned state = sx_choose(3, "state");
  if (state == 1) p.prefetch_statements();
  if (state == 2) p.prefetch_parse_tree();
  PF r(std::move(p));
  CHECK((bool)r == (t.scans && (state < 2 || t.parses)), "a moved file is as good as it was");
  if (!r) return;
  CHECK(sx_same(lines_of(q.logical_file()), lines_of(r.logical_file())), "the lines of a moved file");
  bool tree = q.prefetch_parse_tree(), rtree = r.prefetch_parse_tree();
  CHECK(tree == t.parses && rtree == tree, "a moved file parses as it did");
  CHECK(sx_same(stmts_of(q.logical_file(), q.statements()), stmts_of(r.logical_file(), r.statements())), "the statements of a moved file");
  if (!tree) return;
  CHECK(sx_same(tree_of(q), tree_of(r)), "the tree of a moved file");
  // and it is edited like it
  Indent_Table tab;
  for (PF *f : {&q, &r}) {
    tab.apply_constant_indent(2);
    f->indent(tab);
    auto &s = f->statements();
    if (!s.empty()) {
      f->logical_file().append_stmt_text(s.begin(), " ");
      f->logical_file().isolate_stmt(std::prev(s.end()));
    }
  }
  CHECK(sx_same(lines_of(q.logical_file()), lines_of(r.logical_file())), "the edited lines of a moved file");
  CHECK(sx_same(stmts_of(q.logical_file(), q.statements()), stmts_of(r.logical_file(), r.statements())), "the edited statements of a moved file");
}
