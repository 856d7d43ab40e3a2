// Editing the statements of a file (P10).
#include "edit_util.h"

static bool FX; // fixed form
static std::string upto(std::string l, size_t n, const char *rest) {
  l.resize(n, ' ');
  return l + rest;
}
static Lines fixed_menu() {
  std::string g = sx_str(1, " \t", "g");
  switch (sx_choose(10, "file")) {
  case 0: return {"      a=1;" + g + "b=2; c=3 ! cc", "      d=4"};
  case 1: return {"c first", "10    a = f(x, ! one", "     &  y); b=2 ! two", "#if q", "      c=3"};
  case 2: return {"      a=1 ! p", "", "* note", "      b = 2;" + g, "! mid", "     & c=3;d=4", "      e=5"};
  case 3: return {upto("      a=1;" + g + "b=2", 72, "! SEQ1"), upto("   30 d=4", 72, "! SEQ2")};
  case 4: return {"      ;a=1;;" + g + "b=2;", "      include 'f'", " 2 0  c=3"};
  case 5: return {"#if x", "      a=1", "C tail"};
  case 6: return {"        x = y" + g + "+ 1", "     1    + 2 ! k", "     2    + 3 ! l", "       z=1"};
  case 7: return {"   30 goto 40 ; enddo;" + g + "if (a) b=1", "! q", "40    continue"};
  case 8: return {upto("      x=1;" + g + "aa = bb +", 72, "! SEQ1"), "     &cc; s='p q' ! r", "! end"};
  default: return {"          a=1", "  ! p1", "#define y", "          b=2; c=3"};
  }
}
static Logical_Line line_of(const char *t, const char *label = nullptr) {
  std::string l = label ? label : "";
  if (!FX) return Logical_Line(label ? l + " " + t : std::string(t));
  return Logical_Line(upto(l, 6, t), 72);
}
static Lines file_menu(unsigned &which) {
  if (FX) return fixed_menu();
  which = sx_choose(10, "file");
  std::string g = sx_str(1, " \t", "g");
  switch (which) {
  case 0: return {"a=1;" + g + "b=2; c=3 ! cc", "d=4"};
  case 1: return {"! first", "10 a = f(x, & ! one", "   & y); b=2 ! two", "#if q", "c=3"};
  case 2: return {"a=1 ! p", "", "! note", "b = 2;" + g + "&", "! mid", " c=3;d=4", "e=5"};
  case 3: return {"s='p;&", " &q'; t =" + g + "1 ; u=2"};
  case 4: return {";a=1;;" + g + "b=2;", "include 'f'", "20 c=3"};
  case 5: return {"#if x", "a=1", "! tail"};
  case 6: return {"  x = y" + g + "+ 1 &", "    + 2 & ! k", "    + 3 ! l", " z=1"};
  case 7: return {"30 goto 40 ; enddo;" + g + "if (a) b=1", "! q", "40 continue"};
  case 8: return {"x=1;" + g + "aa = bb&", "&cc; s='p&", " &q' ! r", "! end"};
  default: return {"    a=1", "  ! p1", "#define y", "    b=2; c=3"};
  }
}
struct Model {
  std::vector<Toks> st;
  std::vector<int> lab;
  std::vector<std::string> cmt, oth;
};
static Model model(Logical_File &f, const Lines &in) {
  Model m;
  Seen s = look(in, FX);
  CHECK(s.ok, "the example is accepted");
  m.st = s.stmts;
  m.lab = s.labels;
  m.cmt = s.comments;
  m.oth = s.other;
  return m;
}
// the statement list, the lines and the printed file agree with the model
static void agree(Logical_File &f, const Model &m) {
  CHECK(f.ll_stmts.size() == m.st.size(), "number of statements after the edit");
  size_t k = 0;
  LL_SEQ::iterator at = f.lines.begin();
  int comp = 0;
  for (auto it = f.ll_stmts.begin(); it != f.ll_stmts.end(); ++it, ++k) {
    Toks t;
    for (auto x = it->begin(); x != it->end(); ++x) t.push_back(x->text());
    CHECK(same_list(t, m.st[k]), "text of a statement after the edit");
    CHECK(it->label() == m.lab[k], "label of a statement after the edit");
    // its line is in the file, and holds it at its place
    bool first = it->is_compound() < 2;
    if (first) {
      for (auto &p : it->prefix_lines) {
        while (at != f.lines.end() && at != p && !at->has_fortran()) ++at;
        CHECK(at != f.lines.end() && at == p, "lines before a statement are not where they belong");
        ++at;
      }
      while (at != f.lines.end() && at != it->it() && (!at->has_fortran() || at->stmts().empty())) ++at;
      CHECK(at != f.lines.end() && at == it->it(), "statements are out of step with the lines");
      ++at;
      comp = it->is_compound() ? 1 : 0;
    } else {
      CHECK(std::prev(at) == it->it(), "a statement of a compound line on another line");
      comp++;
      CHECK(it->is_compound() == comp, "number in a compound line");
    }
    const Logical_Line &l = it->ll();
    CHECK(l.stmts().size() > 1 ? it->is_compound() >= 1 : it->is_compound() == 0, "compound state");
    size_t q = it->is_compound() ? (size_t)it->is_compound() - 1 : 0;
    CHECK(q < l.stmts().size(), "number in a compound line");
    TT_Range r = l.stmts()[q];
    CHECK(r.begin() == it->begin() && r.end() == it->end(), "the statement is not the statement of its line");
    if (first) {
      check_places(l);
      check_stmts(l);
      CHECK(l.label == m.lab[k], "label of a line");
    }
  }
  std::string note;
  for (auto &x : printed(f)) note += x + "/";
  sx_note(note.c_str());
  Seen s = look(printed(f), FX);
  CHECK(s.ok, "the edited file is accepted");
  CHECK(s.stmts.size() == m.st.size(), "statements of the printed file");
  for (size_t i = 0; i < m.st.size(); i++) {
    CHECK(same_list(s.stmts[i], m.st[i]), "text of the printed file");
    CHECK(s.labels[i] == m.lab[i], "label in the printed file");
  }
  CHECK(same_list(s.comments, m.cmt), "a comment of the file is lost, moved or changed");
  CHECK(same_list(s.other, m.oth), "a preprocessor or include line is lost, moved or changed");
}
// one edit applied to the file and to the model
static void edit(Logical_File &f, Model &m, unsigned op) {
  size_t n = f.ll_stmts.size();
  size_t i = sx_choose((unsigned)n, "stmt");
  auto it = std::next(f.ll_stmts.begin(), (long)i);
  switch (op) {
  case 0: {
    bool want = it->is_compound() > 1 || (i + 1 < n && std::next(it)->is_compound() > 1);
    CHECK(f.isolate_stmt(it) == want, "reports whether it split a line");
    CHECK(it->is_compound() == 0 && it->ll().stmts().size() == 1, "the statement is not on a line of its own");
    break;
  }
  case 1: {
    bool want = it->is_compound() > 1;
    CHECK(f.split_compound_before(it) == want, "reports whether it split a line");
    break;
  }
  case 2: {
    auto r = f.emplace_ll_stmt(it, line_of("new = 1"), Syntax_Tags::SG_ASSIGNMENT_STMT);
    CHECK(std::next(r) == it, "place of a new statement");
    CHECK(r->syntax_tag() == Syntax_Tags::SG_ASSIGNMENT_STMT, "kind of a new statement");
    m.st.insert(m.st.begin() + (long)i, Toks{"new", "=", "1"});
    m.lab.insert(m.lab.begin() + (long)i, 0);
    break;
  }
  case 3: {
    auto pre = it->prefix_lines;
    auto r = f.emplace_ll_stmt_after_prefix(it, line_of("new = 1", "88"), Syntax_Tags::SG_ASSIGNMENT_STMT);
    CHECK(std::next(r) == it, "place of a new statement");
    CHECK(r->prefix_lines == pre && it->prefix_lines.empty(), "the lines before go with the new statement");
    m.st.insert(m.st.begin() + (long)i, Toks{"new", "=", "1"});
    m.lab.insert(m.lab.begin() + (long)i, 88);
    break;
  }
  case 4: {
    bool cl = false; // replacing is not offered with comment lines inside
    for (auto &fl : it->ll().layout()) cl |= !fl.is_fortran();
    sx_assume(!cl);
    unsigned k = sx_choose(3, "text");
    Lines t = k == 0 ? Lines{"RETURN"} : k == 1 ? Lines{"p = q", "+ r"} : Lines{"p = q", "+ r", "* 2", "- 1"};
    f.replace_stmt_text(it, t, k == 0 ? Syntax_Tags::SG_RETURN_STMT : Syntax_Tags::SG_ASSIGNMENT_STMT);
    CHECK(it->syntax_tag() == (k == 0 ? Syntax_Tags::SG_RETURN_STMT : Syntax_Tags::SG_ASSIGNMENT_STMT), "kind of a replaced statement");
    m.st[i] = k == 0 ? Toks{"RETURN"} : k == 1 ? Toks{"p", "=", "q", "+", "r"} : Toks{"p", "=", "q", "+", "r", "*", "2", "-", "1"};
    break;
  }
  case 5: {
    size_t c = m.st[i].size();
    size_t b = sx_choose((unsigned)c, "from"), e = b + 1 + sx_choose((unsigned)(c - b), "count");
    LL_TT_Range r(it->it(), TT_Range(std::next(it->begin(), (long)b), std::next(it->begin(), (long)e)));
    f.replace_stmt_substr(it, r, " k9 ");
    m.st[i].erase(m.st[i].begin() + (long)b, m.st[i].begin() + (long)e);
    m.st[i].insert(m.st[i].begin() + (long)b, "k9");
    break;
  }
  case 6: {
    size_t b = sx_choose((unsigned)m.st[i].size(), "token");
    f.insert_text_after(it, std::next(it->begin(), (long)b), " k9 ");
    m.st[i].insert(m.st[i].begin() + (long)b + 1, "k9");
    break;
  }
  case 7: {
    f.append_stmt_text(it, " k9");
    m.st[i].push_back("k9");
    break;
  }
  default: {
    static const int V[] = {0, 7, 10, 12345};
    int v = V[sx_choose(4, "label")];
    CHECK(f.set_stmt_label(it, v) == (v != m.lab[i]), "reports whether the label changed");
    m.lab[i] = v;
    break;
  }
  }
}
extern "C" void file_edit(int op, int fixed) {
  FX = fixed;
  unsigned w;
  Lines in = file_menu(w);
  Logical_File f;
  CHECK(f.scan(in, "t", FX ? 72 : 0, FX ? File_Type::FIXEDFMT : File_Type::FREEFMT), "accepted");
  f.make_stmts();
  Model m = model(f, in);
  agree(f, m);
  edit(f, m, (unsigned)op);
  agree(f, m);
  sx_cover("edited");
}
extern "C" void file_edit2(int op, int op2, int fixed) {
  FX = fixed;
  unsigned w;
  Lines in = file_menu(w);
  Logical_File f;
  CHECK(f.scan(in, "t", FX ? 72 : 0, FX ? File_Type::FIXEDFMT : File_Type::FREEFMT), "accepted");
  f.make_stmts();
  Model m = model(f, in);
  edit(f, m, (unsigned)op);
  edit(f, m, (unsigned)op2);
  agree(f, m);
  sx_cover("edited");
}
