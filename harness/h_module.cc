// The module application (P23): procedures that call a listed subroutine get
// a use statement, nothing else happens.
#include "edit_util.h"
#include "../apps/module_base.cc"
using FLPR_Module::File;
struct Unit { // a procedure
  bool internal = false, calls = false, uses = false, exec = false;
  bool joined = false; // on the line of the one before it
  size_t at = 0; // statement before which a use statement would go
};
struct Src {
  bool fixed = false;
  std::vector<std::string> lines;
  std::vector<std::string> stmts; // text of each statement
  std::vector<int> labels;
  std::vector<Unit> units;
  void put(const std::string &t, int label = 0) {
    std::string l = label ? std::to_string(label) : "";
    if (fixed) l.resize(6, ' ');
    else if (label) l += " ";
    lines.push_back(l + std::string(depth, ' ') + t);
    add(t, label);
  }
  void join(const std::string &t) {
    lines.back() += " ; " + t;
    add(t, 0);
  }
  void note(const std::string &t) { lines.push_back("! " + t); }
  unsigned depth = 0;

private:
  void add(const std::string &t, int label) {
    stmts.push_back(t);
    labels.push_back(label);
  }
};
struct Use {
  const char *text;
  bool same;
};
static const Use USES[] = {{nullptr, false}, {"use other", false}, {"use Mod", true}, {"use, intrinsic :: other", false}, {"use :: mOD, only: x", true}, {"use, non_intrinsic :: mod", true}, {"use data", false}};
struct Exec {
  const char *text;
  bool calls;
};
static const Exec EXECS[] = {
    {nullptr, false}, {"call sub", true}, {"CALL Sub (1)", true}, {"if (a(1)) call sub(x)", true}, {"call a%sub", true}, {"call a(1)%b%sub (2)", true},
    {"call other", false}, {"call sub % other", false}, {"x = sub", false}, {"if (sub) call other", false}, {"if (a) x = sub", false}, {"call two", true}, {"call call", false}, {"if (a) call b(1)%sub(c)", true}, {"10 call sub", true}, {"call b(1)", false}, {"call a%b%c%sub(1)", true}, {"call a%sub%b(1)%c", false}, {"call a(sub)%other (sub)", false},
};
enum { NU = sizeof USES / sizeof *USES, NE = sizeof EXECS / sizeof *EXECS };
static void exec(Src &s, Unit &u, const Exec &e, bool join) {
  if (!e.text) return;
  std::string t = e.text;
  int label = t[0] == '1' ? 10 : 0;
  if (label) t = t.substr(3);
  if (join && !label) s.join(t);
  else s.put(t, label);
  u.exec = true;
  u.calls |= e.calls;
}
// what: 0 a single statement, 1 two statements, 2 inside constructs, 3 compound
// lines and comments, 4 few of them
static void body(Src &s, Unit &u, int what) {
  unsigned nu = sx_choose(what == 1 || what == 4 ? 3 : NU, "use");
  s.depth += 2;
  if (what == 3) s.note("before");
  if (USES[nu].text) {
    s.put(USES[nu].text);
    u.uses |= USES[nu].same;
    if (what == 1) {
      unsigned n2 = sx_choose(3, "second use");
      if (USES[n2].text) {
        s.put(USES[n2].text);
        u.uses |= USES[n2].same;
      }
    }
  }
  u.at = s.stmts.size();
  bool same_line = u.joined = what == 3 && USES[nu].text && sx_choose(2, "same line");
  if (what == 3 && !same_line) s.note("after");
  if (same_line || (what != 2 && sx_choose(2, "declarations"))) {
    if (same_line) s.join("implicit none");
    else s.put("implicit none");
    s.put("integer :: x");
    if (what == 3) s.join("save");
  }
  if (what == 2) {
    s.put("if (q) then");
    u.exec = true;
    s.depth += 2;
    s.put("do i = 1, 2");
  }
  if (what == 3) s.note("within");
  const Exec &e = EXECS[sx_choose(what == 4 ? 3 : NE, "statement")];
  exec(s, u, e, false);
  if (what == 1) exec(s, u, EXECS[sx_choose(NE, "second")], false);
  if (what == 3) exec(s, u, EXECS[sx_choose(8, "second")], e.text);
  if (what == 2) {
    s.put("end do");
    s.depth -= 2;
    s.put("end if");
  }
  s.depth -= 2;
}
// frame: 0 subroutine, 1 function, 2 main program, 3 headless main program,
// 4 module procedure, 5 separate module procedure, 6 with an internal
// procedure that may call, 7 two procedures
extern "C" void module_file(int fixed, int frame, int what) {
  Src s;
  s.fixed = fixed;
  if (fixed) sx_assume(what != 3);
  if (frame == 4 || frame == 5) {
    s.put("module mm");
    s.put("contains");
    s.depth = 1;
  }
  Unit u;
  if (frame == 1) s.put("integer function f(a)");
  else if (frame == 2) s.put("program p");
  else if (frame == 5) s.put("module procedure f");
  else if (frame != 3) s.put("subroutine f");
  body(s, u, what);
  if (frame == 6) {
    s.put("contains");
    Unit v;
    v.internal = true;
    s.put("subroutine inner");
    exec(s, v, EXECS[sx_choose(3, "inner")], false);
    s.put("end subroutine");
    s.units.push_back(v);
  }
  s.put(frame == 1 ? "end function" : frame == 2 || frame == 3 ? "end program" : frame == 5 ? "end procedure" : "end subroutine");
  s.units.push_back(u);
  if (frame == 7) {
    Unit v;
    s.put("subroutine g");
    body(s, v, 4);
    s.put("end");
    s.units.push_back(v);
  }
  if (frame == 4 || frame == 5) {
    s.depth = 0;
    s.put("end module");
  }
  std::string text;
  std::string line;
  for (auto &l : s.lines) text += l + "\n", line += l + "/";
  sx_note(line.c_str());
  SxIn in(text);
  File f(in.is(), "t", fixed ? 72 : 0, fixed ? File_Type::FIXEDFMT : File_Type::FREEFMT);
  CHECK(bool(f) && !f.parse_tree().empty(), "harness: the file is read");
  FLPR_Module::Module_Action act("Mod", {});
  act.add_subroutine_name("SUB");
  act.add_subroutine_name("two");
  Procedure_Visitor v(f, act);
  bool changed = v.visit();
  // what should have happened
  bool want = false;
  std::vector<std::string> stmts = s.stmts;
  std::vector<int> labels = s.labels;
  std::vector<size_t> added;
  size_t split = 0;
  for (size_t k = s.units.size(); k-- > 0;) {
    Unit &x = s.units[k];
    if (x.internal || !x.calls || x.uses) continue;
    want = true;
    stmts.insert(stmts.begin() + (long)x.at, "use Mod");
    labels.insert(labels.begin() + (long)x.at, 0);
    for (auto &a : added) a++;
    added.push_back(x.at);
    split += x.joined;
  }
  if (want) sx_cover("added");
  else sx_cover("nothing to add");
  SxOut o;
  FLPR_Module::write_file(o.os(), f);
  Lines out = split_lines(o.str());
  Seen got = look(out, fixed), before = look(s.lines, fixed);
  CHECK(got.ok && before.ok, "the file is read again");
  CHECK(got.stmts.size() == stmts.size(), "number of statements");
  for (size_t k = 0; k < stmts.size(); k++) {
    Lines one{(fixed ? "      " : "") + stmts[k]};
    Seen w = look(one, fixed);
    CHECK(w.stmts.size() == 1 && same_list(w.stmts[0], got.stmts[k]), "a statement");
    CHECK(got.labels[k] == labels[k], "label of a statement");
  }
  CHECK(same_list(got.comments, before.comments) && same_list(got.other, before.other), "comments and other lines");
  CHECK(out.size() == s.lines.size() + added.size() + split, "number of lines");
  CHECK(changed == want, "whether something was changed");
  // the statements in memory are those of the text
  auto it = f.statements().begin();
  for (size_t k = 0; k < stmts.size(); k++, ++it) {
    Toks t;
    for (auto x = it->begin(); x != it->end(); ++x) t.push_back(x->text());
    CHECK(same_list(t, got.stmts[k]), "a statement in memory");
    CHECK(!it->stmt_tree().empty(), "a statement has a tree");
  }
  // the new line is where its neighbour is
  for (auto a : added) {
    size_t n = 0, l = 0;
    for (; l < out.size(); l++) {
      Seen x = look({out[l]}, fixed);
      if (n <= a && a < n + x.stmts.size()) break;
      n += x.stmts.size();
    }
    CHECK(l < out.size(), "the new line");
    size_t m = l + 1;
    while (m < out.size() && out[m][0] == '!') m++;
    size_t w = out[l].find("use"), g = fixed ? out[m].find_first_not_of(" ", 6) : out[m].find_first_not_of(" 0123456789");
    CHECK(w == g, "column of the new statement");
  }
}
