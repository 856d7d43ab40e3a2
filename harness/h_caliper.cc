// The caliper application (P24): a call at the beginning and one on every way
// out of each procedure, and nothing else.
#define main caliper_main
#include "../apps/caliper.cc"
#undef main
#undef TAG
#include "edit_util.h"
struct Stm {
  std::string text;
  int label = 0;
  bool exec = false, ret = false, ifret = false;
  bool joined = false; // on the line of the one before it
};
struct CUnit {
  size_t first = 0, last = 0; // its execution part, [first, last)
  bool instrumented = true;
  std::string name;
  std::vector<int> labels;
};
struct CSrc {
  bool fixed = false;
  Lines lines;
  std::vector<Stm> stmts;
  std::vector<CUnit> units;
  unsigned depth = 0;
  void put(const std::string &t, int label = 0, bool join = false) {
    std::string l = label ? std::to_string(label) : "";
    if (fixed) l.resize(6, ' ');
    else if (label) l += " ";
    if (join && !label) lines.back() += " ; " + t;
    else lines.push_back(l + std::string(depth, ' ') + t);
    Stm s;
    s.text = t;
    s.label = label;
    s.joined = join && !label;
    stmts.push_back(s);
  }
};
struct Form {
  const char *text;
  int label;
  int what; // 1 return, 2 if with return
};
static const Form FORMS[] = {
    {"return", 0, 1}, {"if (a) return", 0, 2}, {"x = 1", 0, 0}, {"RETURN", 10, 1}, {"if (a(1)) return", 20, 2}, {"continue", 9999, 0}, {"call return", 0, 0},
    {"if (return) x = 1", 0, 0}, {"return = 2", 0, 0}, {"if(b) Return", 0, 2}, {"go to 10", 0, 0}, {"return", 9999, 1}, {"continue", 9998, 0}, {"if (a) call s(return)", 0, 0},
    {"format (i5)", 30, 0}, {"if (a(return(1))) return", 0, 2},
};
enum { NF = sizeof FORMS / sizeof *FORMS };
static void form(CSrc &s, CUnit &u, const Form &f, bool join = false) {
  s.put(f.text, f.label, join);
  Stm &t = s.stmts.back();
  t.exec = true;
  t.ret = f.what == 1;
  t.ifret = f.what == 2;
  if (f.label) u.labels.push_back(f.label);
}
static bool dup(const std::vector<int> &v) {
  for (size_t a = 0; a < v.size(); a++)
    for (size_t b = 0; b < a; b++)
      if (v[a] == v[b]) return true;
  return false;
}
// the last line is continued after its first token
static void broken(CSrc &s) {
  std::string &l = s.lines.back();
  size_t k = l.find("if");
  if (k == std::string::npos) k = l.find("ret");
  if (k == std::string::npos) return;
  if (l[k] == 'i') k = l.rfind(')') + 1;
  else k += 6;
  if (k >= l.size()) k = l.find('(') + 1;
  if (!k) return;
  std::string rest = l.substr(k);
  l.resize(k);
  if (!s.fixed) l += " &";
  if (sx_choose(2, "comment between")) s.lines.push_back("! between");
  s.lines.push_back((s.fixed ? "     & " : "   ") + rest);
}
// where: 0 statements in a row, 1 in constructs, 2 compound lines and comments,
// 3 continued lines
static void body(CSrc &s, CUnit &u, unsigned n, int where, unsigned nf) {
  s.depth += 2;
  if (sx_choose(2, "declarations")) {
    s.put("implicit none");
    s.put("integer :: return", 0, where == 2);
    if (where == 1 || where == 2) {
      s.put("format (i5)", 9999);
      u.labels.push_back(9999);
    }
  }
  if (where == 2) s.lines.push_back("! before");
  u.first = s.stmts.size();
  if (where == 1) {
    s.put("if (c) then");
    s.stmts.back().exec = true;
    s.depth += 2;
  }
  for (unsigned k = 0; k < n; k++) {
    unsigned c = sx_choose(nf + 1, "statement");
    if (c == nf) continue;
    form(s, u, FORMS[c], where == 2 && s.stmts.size() > u.first);
    if (where == 3) broken(s);
  }
  if (where == 2 && s.stmts.size() > u.first) s.lines.back() += " ! note";
  if (where == 1) {
    s.depth -= 2;
    s.put("end if");
    s.stmts.back().exec = true;
    unsigned c = sx_choose(4, "last");
    if (c < 3) form(s, u, FORMS[c == 0 ? 0 : c == 1 ? 3 : 2]);
  }
  u.last = s.stmts.size();
  while (u.first < u.last && s.stmts[u.first].text[0] == 'f') u.first++; // not executable
  sx_assume(!dup(u.labels));
  s.depth -= 2;
}
// frame: 0 subroutine, 1 function, 2 main program, 3 headless main program, 4
// module procedure, 5 separate module procedure, 6 with internal procedures, 7
// two procedures, 8 with prefixes
extern "C" void caliper_prog(int fixed, int frame, int where, int n) {
  CSrc s;
  s.fixed = fixed;
  sx_assume(!(fixed && where == 2));
  if (frame == 4 || frame == 5) {
    s.put("module mm");
    s.put("contains");
    s.depth = 1;
  }
  CUnit u;
  u.name = "f";
  const char *end = "end subroutine";
  if (frame == 1) s.put("integer function f(a)"), end = "end function";
  else if (frame == 2) s.put("program f"), end = "end program";
  else if (frame == 3) end = "end program", u.name = "";
  else if (frame == 5) s.put("module procedure f"), end = "end procedure";
  else if (frame == 8) {
    static const char *PRE[] = {"pure subroutine f", "recursive subroutine f(a)", "ELEMENTAL subroutine f(a)", "recursive pure subroutine f", "impure elemental subroutine f(a)", "module subroutine f", "recursive module subroutine f"};
    unsigned k = sx_choose(7, "prefix");
    s.put(PRE[k]);
    u.instrumented = k == 1 || k >= 5;
    if (k >= 5) {
      Stm t = s.stmts.back();
      s.stmts.clear();
      s.lines.clear();
      s.put("module mm");
      s.put("contains");
      s.put(t.text);
    }
    frame = k >= 5 ? 9 : 8;
  } else s.put("subroutine f");
  body(s, u, (unsigned)n, where, frame == 7 || frame == 6 ? 3 : NF);
  if (frame == 6) {
    s.put("contains");
    CUnit v;
    v.instrumented = false;
    s.put("subroutine inner");
    body(s, v, 1, 0, 5);
    s.put("end subroutine");
  }
  s.put(end);
  s.units.push_back(u);
  if (frame == 7) {
    CUnit v;
    v.name = "Gg";
    s.put("subroutine Gg");
    body(s, v, 1, 0, 5);
    s.put("end");
    s.units.push_back(v);
  }
  if (frame == 4 || frame == 5 || frame == 9) {
    s.depth = 0;
    s.put("end module");
  }
  std::string text, line;
  for (auto &l : s.lines) text += l + "\n", line += l + "/";
  sx_note(line.c_str());
  SxIn in(text);
  File f(in.is(), "t", fixed ? 72 : 0, fixed ? File_Type::FIXEDFMT : File_Type::FREEFMT);
  CHECK(bool(f) && !f.parse_tree().empty(), "harness: the file is read");
  FLPR::Procedure_Visitor v(f, caliper_procedure);
  bool changed = v.visit();
  // what should have happened
  std::vector<std::string> stmts;
  std::vector<int> labels;
  bool want = false;
  size_t at = 0;
  for (auto &x : s.units) {
    for (; at < x.first; at++) stmts.push_back(s.stmts[at].text), labels.push_back(s.stmts[at].label);
    if (!x.instrumented || x.first == x.last) continue;
    want = true;
    stmts.push_back("call caliper_begin('" + x.name + "')"), labels.push_back(0);
    bool final = s.stmts[x.last - 1].ret;
    bool other = false;
    for (size_t k = x.first; k < x.last; k++) other |= s.stmts[k].ifret || (s.stmts[k].ret && k + 1 != x.last);
    int l = final ? s.stmts[x.last - 1].label : 0;
    if (other && !l)
      for (l = 9999;; l--) {
        bool used = false;
        for (int y : x.labels) used |= y == l;
        if (!used) break;
      }
    std::string go = "go to " + std::to_string(l);
    for (; at < x.last; at++) {
      const Stm &t = s.stmts[at];
      if (t.ret && at + 1 == x.last) continue;
      if (t.ret) stmts.push_back(go);
      else if (t.ifret) stmts.push_back(t.text.substr(0, t.text.size() - 6) + go);
      else stmts.push_back(t.text);
      labels.push_back(t.label);
    }
    stmts.push_back("call caliper_end('" + x.name + "')"), labels.push_back(l);
    sx_cover(final ? "final return" : "no final return");
    if (other) sx_cover("other returns");
  }
  for (; at < s.stmts.size(); at++) stmts.push_back(s.stmts[at].text), labels.push_back(s.stmts[at].label);
  SxOut o;
  write_file(o.os(), f);
  Lines out = split_lines(o.str());
  Seen got = look(out, fixed), before = look(s.lines, fixed);
  CHECK(got.ok && before.ok, "the file is read again");
  CHECK(got.stmts.size() == stmts.size(), "number of statements");
  for (size_t k = 0; k < stmts.size(); k++) {
    Lines one{(fixed ? "      " : "") + stmts[k]};
    Seen w = look(one, fixed);
    CHECK(w.stmts.size() == 1 && same_list(w.stmts[0], got.stmts[k]), "a statement");
    CHECK(got.labels[k] == labels[k], "label of a statement");
  }
  CHECK(same_list(got.comments, before.comments) && same_list(got.other, before.other), "comments and other lines");
  CHECK(changed == want, "whether something was changed");
  auto it = f.statements().begin();
  for (size_t k = 0; k < stmts.size(); k++, ++it) {
    CHECK(it != f.statements().end(), "a statement in memory is missing");
    Toks t;
    for (auto x = it->begin(); x != it->end(); ++x) t.push_back(x->text());
    CHECK(same_list(t, got.stmts[k]), "a statement in memory");
    CHECK(it->label() == labels[k], "label of a statement in memory");
    CHECK(!it->stmt_tree().empty(), "a statement has a tree");
  }
  CHECK(it == f.statements().end(), "statements left in memory");
  // the result is a program again
  SxIn in2(o.str());
  File g(in2.is(), "t", fixed ? 72 : 0, fixed ? File_Type::FIXEDFMT : File_Type::FREEFMT);
  CHECK(bool(g) && !g.parse_tree().empty(), "the result is parsed again");
}
