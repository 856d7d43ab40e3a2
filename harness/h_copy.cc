// Copies of lines (P27): a copied or moved line is the line, and lives on its
// own.
#include "edit_util.h"
namespace {
std::string num(int v) {
  std::string r;
  bool neg = v < 0;
  do r.insert(r.begin(), (char)('0' + (neg ? -(v % 10) : v % 10)));
  while (v /= 10);
  return neg ? "-" + r : r;
}
// everything a line has, and that its statements are ranges of its own tokens
std::string seen(const Logical_Line &l) {
  std::string s = num(l.label) + " " + num((int)l.cat) + (l.suppress ? "s" : "") + (l.needs_reformat ? "r" : "") + "\n";
  if (l.file_info) s += l.file_info->filename + "\n";
  s += num(l.start_line()) + "-" + num(l.end_line()) + (l.has_fortran() ? "f" : "") + (l.is_compound() ? "c" : "") + "\n";
  for (auto &f : l.layout()) {
    s += num(f.linenum) + (f.is_comment() ? "!" : "") + (f.is_blank() ? "_" : "") + (f.is_fortran() ? "f" : "") + (f.is_continued() ? "&" : "") + (f.is_continuation() ? "+" : "") + (f.has_label() ? "l" : "") + (f.is_fixed_format() ? "x" : "");
    s += "|" + f.left_txt + "|" + f.left_space + "|" + f.main_txt + "|" + f.right_space + "|" + f.right_txt + "|" + (f.open_delim ? std::string(1, f.open_delim) : "") + "\n";
  }
  for (auto &t : l.fragments()) s += num(t.token) + "." + num(t.start_line) + "." + num(t.start_pos) + "." + num(t.main_txt_line()) + "." + num(t.main_txt_col()) + "." + num(t.main_txt_eline()) + "." + num(t.main_txt_ecol()) + "." + t.text() + "\n";
  if (l.has_fortran()) s += num(l.num_semicolons()) + (l.has_empty_statements() ? "e" : "") + "\n";
  auto at = l.fragments().begin();
  for (auto &v : l.stmts()) {
    s += "stmt";
    for (auto it = v.begin(); it != v.end(); ++it) {
      while (at != l.fragments().end() && &*at != &*it) ++at;
      CHECK(at != l.fragments().end(), "a statement of a line consists of the line's own tokens, in order");
      if (at == l.fragments().end()) return s;
      s += " " + it->text();
    }
    s += "\n";
  }
  return s;
}
Lines source(bool fixed, unsigned which, std::string &note) {
  std::string c = sx_str(1, "aeq", "letter"), b = fixed ? "      " : "", k = fixed ? "     & " : " & ", e = fixed ? "" : " &";
  Lines l;
  switch (which) {
  case 0: l = {b + c + " = 1; call s(" + c + ") ; ; d = 'x;y' ! note"}; break;
  case 1: l = {(fixed ? "10    " : "10 ") + std::string("if (") + c + e, "! between", k + ") goto 20; " + c + " = 2 ! end"}; break;
  case 2: l = {b + c + " = 'one " + (fixed ? "" : "&"), (fixed ? "     &" : " &") + std::string("two' // d")}; break;
  case 3: l = {"! only " + c, ""}; break;
  case 4: l = {"#define " + c + " \\", " 1"}; break;
  default: l = {b + ";" + c + " = 1;;"}; break;
  }
  for (auto &x : l) note += x + "/";
  return l;
}
// one of several edits
void edit(Logical_Line &l, unsigned which, Logical_Line &rest) {
  auto &f = l.fragments();
  bool some = !f.empty();
  switch (which) {
  case 0: l.label = 30; break;
  case 1: if (some) l.replace_fragment(f.begin(), Syntax_Tags::TK_NAME, "other"); break;
  case 2: if (some) l.insert_text_after(f.begin(), "(new)"); break;
  case 3: if (l.is_compound()) {
      auto at = f.begin();
      while (&*at != &*std::prev(l.stmts()[0].end())) ++at;
      l.split_after(at, rest);
      l.init_stmts();
      rest.init_stmts();
    }
    break;
  case 4: if (some && l.has_empty_statements()) l.remove_empty_statements(); break;
  case 5: if (some && !l.is_compound()) l.replace_main_text({"call r(1)"}); break;
  case 6: l.append_comment("added"); break;
  case 7: if (some) l.remove_fragment(std::prev(f.end())); break;
  case 8: if (some) l.replace_stmt_substr(l.stmts()[0], "w = 1"); break;
  default:
    l.layout().front().main_txt += " ";
    if (some) f.begin()->token = Syntax_Tags::TK_NAME, l.init_stmts();
    l.clear();
  }
}
unsigned const NEDIT = 10;
} // namespace
// how: 0 constructed, 1 assigned to another line, 2 to itself, 3 moved to a new
// line, 4 moved to another line, 5 in a copied list, 6 in a growing vector
extern "C" void copy_line(int fixed, int which, int how) {
  std::string note;
  Lines in = source(fixed, (unsigned)which, note);
  sx_note(note.c_str());
  Logical_File f, g;
  bool ok = f.scan(in, "t", fixed ? 72 : 0, fixed ? File_Type::FIXEDFMT : File_Type::FREEFMT) && g.scan(in, "t", fixed ? 72 : 0, fixed ? File_Type::FIXEDFMT : File_Type::FREEFMT);
  CHECK(ok && f.lines.size() == 1 && g.lines.size() == 1, "the text is one line");
  if (!ok || f.lines.size() != 1) return;
  if (sx_choose(2, "flags")) f.lines.front().suppress = g.lines.front().suppress = true;
  Logical_Line &l = f.lines.front(), &fresh = g.lines.front();
  std::string was = seen(l);
  CHECK(sx_same(was, seen(fresh)), "the same text is the same line");
  Logical_Line other(Lines{fixed ? "      k = 1; j = 2" : "10 k = 1; j = 2", fixed ? "     & + 3" : ""}, fixed ? 72 : 0);
  LL_SEQ seq;
  std::vector<Logical_Line> vec;
  Logical_Line *c = &other;
  bool moved = how == 3 || how == 4;
  switch (how) {
  case 0: seq.emplace_back(l); c = &seq.front(); break;
  case 1: other = l; break;
  case 2: {
    Logical_Line &same = l;
    l = same;
    CHECK(sx_same(was, seen(l)), "a line assigned to itself");
    other = l;
    break;
  }
  case 3: seq.emplace_back(std::move(l)); c = &seq.front(); break;
  case 4: other = std::move(l); break;
  case 5: seq = f.lines; c = &seq.front(); break;
  default:
    vec.push_back(l);
    for (int i = 0; i < 3; i++) vec.push_back(other);
    c = &vec.front();
  }
  CHECK(sx_same(was, seen(*c)), "a copy is the line");
  // an edit of one of them leaves the other alone
  unsigned e = sx_choose(NEDIT, "edit");
  bool first = !moved && sx_choose(2, "edit the first");
  Logical_Line rest, rest2;
  if (first) {
    edit(l, e, rest);
    CHECK(sx_same(was, seen(*c)), "a copy changed with the line");
    edit(fresh, e, rest2);
    CHECK(sx_same(seen(l), seen(fresh)), "an edit of a copied line");
    f.lines.clear();
    CHECK(sx_same(was, seen(*c)), "a copy changed with the line");
  } else {
    edit(*c, e, rest);
    if (!moved) CHECK(sx_same(was, seen(l)), "the line changed with its copy");
    edit(fresh, e, rest2);
    CHECK(sx_same(seen(*c), seen(fresh)), "an edit of a copy");
    CHECK(sx_same(seen(rest), seen(rest2)), "the line split from a copy");
    if (moved) { // what was moved can be given a new value
      l = *c;
      CHECK(sx_same(seen(l), seen(*c)), "a line that was moved is used again");
    }
  }
}
