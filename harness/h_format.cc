// The formatting application (P25): whatever it is asked to do, the statements,
// labels and comments of the file stay.
#include "edit_util.h"
#include <array>
#include <chrono>
#include <fstream>
#include <iostream>
#include <unistd.h>
namespace std {
static ostream *sx_out;
}
#define cout sx_out[0]
#include "../apps/flpr_format_base.cc"
#undef cout
static const char *BODY[] = {"x = 1", "call s(a, b)", "y = 'a;b'", "if (a) x = 2", "z(1) = 3", "continue"};
static const char *TAIL[] = {"", " ! note", " ;", ";", " ; ! note", "! note ; x"};
static const char *SEP[] = {"; ", " ;", ";;", " ; ; ", ";\n", ";\n!between\n"};
// one line of n statements
static void piece(Lines &l, bool fixed, int n, std::vector<Toks> &want, std::vector<int> &labels, std::vector<bool> &lone, unsigned depth) {
  int label = sx_choose(2, "label") ? 10 : 0;
  std::string t = label ? "10" : "";
  if (fixed) t.resize(6, ' ');
  else if (label) t += " ";
  t += std::string(depth, ' ');
  if (sx_choose(2, "leading semicolon") && !label) t += "; ";
  unsigned b0 = sx_choose(6, "first");
  for (int k = 0; k < n; k++) {
    if (k) {
      std::string sep = SEP[sx_choose(6, "separator")];
      size_t nl = sep.find('\n');
      if (nl != std::string::npos) {
        l.push_back(t + sep.substr(0, nl) + (fixed ? "" : " &"));
        if (nl + 1 < sep.size()) l.push_back(sep.substr(nl + 1, sep.size() - nl - 2));
        t = fixed ? "     & " : "     & ";
      } else
        t += sep;
    }
    const char *b = BODY[(b0 + (unsigned)k * 2) % 6];
    t += b;
    Seen w = look({(fixed ? "      " : "") + std::string(b)}, fixed);
    want.push_back(w.stmts.at(0));
    labels.push_back(k ? 0 : label);
  }
  t += TAIL[sx_choose(6, "tail")];
  l.push_back(t);
}
// what: 1 split, 2 remove empty statements, 4 indent, 8 to free form
extern "C" void format_file(int fixed, int n, int what) {
  Lines l;
  std::vector<Toks> want;
  std::vector<int> labels;
  std::vector<bool> lone;
  l.push_back(fixed ? "      subroutine s" : "subroutine s");
  if (sx_choose(2, "comment")) l.push_back("! first");
  piece(l, fixed, n, want, labels, lone, sx_choose(2, "depth") * 2);
  l.push_back(fixed ? "      end" : "end");
  std::string text, line;
  for (auto &x : l) text += x + "\n", line += x + "/";
  sx_note(line.c_str());
  SxIn in(text);
  File f(in.is(), "t", fixed ? 72 : 0, fixed ? File_Type::FIXEDFMT : File_Type::FREEFMT);
  CHECK(bool(f), "harness: the file is read");
  Options opt;
  opt[OPT(SPLIT_COMPOUND_STMTS)] = what & 1;
  opt[OPT(REMOVE_EMPTY_STMTS)] = what & 2;
  opt[OPT(REINDENT)] = what & 4;
  opt[OPT(FIXED_TO_FREE)] = what & 8;
  CHECK(!opt[OPT(COL72)] && !opt[OPT(ELABORATE_END_STMTS)] && !opt.quiet() && !opt.verbose() && !opt.do_output() && !opt.write_inplace() && !opt.do_timing(), "default options");
  Indent_Table ind;
  if (fixed && !(what & 8)) {
    ind.apply_constant_fixed_indent(4);
    ind.set_continued_offset(5);
  } else
    ind.apply_emacs_indent();
  SxOut cap, o;
  std::sx_out = &cap.os();
  CHECK(flpr_format_file(f, opt, ind) == 0, "result");
  write_file(o.os(), f);
  line += " => ";
  for (auto &x : split_lines(o.str())) line += x + "/";
  sx_note(line.c_str());
  bool changed = !sx_same(o.str(), text);
  if (changed) CHECK(sx_same(cap.str(), o.str()), "a changed file is written");
  else CHECK(cap.str().empty() || sx_same(cap.str(), o.str()), "an unchanged file is not changed");
  if (changed) sx_cover("changed");
  want.insert(want.begin(), Toks{"subroutine", "s"});
  labels.insert(labels.begin(), 0);
  want.push_back(Toks{"end"});
  labels.push_back(0);
  bool nowfixed = fixed && !(what & 8);
  Lines out = split_lines(o.str());
  Seen got = look(out, nowfixed), before = look(l, fixed);
  CHECK(got.ok, "the file is read again");
  CHECK(got.stmts.size() == want.size(), "number of statements");
  for (size_t k = 0; k < want.size(); k++) {
    CHECK(same_list(want[k], got.stmts[k]), "a statement");
    CHECK(labels[k] == got.labels[k], "label of a statement");
  }
  CHECK(same_list(got.comments, before.comments), "comments");
  CHECK(same_list(got.other, before.other), "other lines");
  // in memory
  auto it = f.statements().begin();
  for (size_t k = 0; k < want.size(); k++, ++it) {
    CHECK(it != f.statements().end(), "a statement in memory is missing");
    Toks t;
    for (auto x = it->begin(); x != it->end(); ++x) t.push_back(x->text());
    CHECK(same_list(t, want[k]), "a statement in memory");
    CHECK(it->label() == labels[k], "label in memory");
  }
  CHECK(it == f.statements().end(), "statements left in memory");
  // what was asked for
  Logical_File g;
  g.scan(out, "t", nowfixed ? 72 : 0, nowfixed ? File_Type::FIXEDFMT : File_Type::FREEFMT);
  for (auto &x : g.lines) {
    if (what & 1) CHECK(x.stmts().size() < 2, "a compound line is left");
    if (what & 3) {
      size_t semis = 0;
      for (auto &t : x.fragments()) semis += t.token == Syntax_Tags::TK_SEMICOLON;
      if (!x.stmts().empty() || semis) CHECK(semis + 1 == x.stmts().size(), "an empty statement is left");
    }
  }
}
