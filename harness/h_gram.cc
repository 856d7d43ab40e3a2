// Statement grammar (P13, P14): sentences of the reference grammar, mutated
// sentences and arbitrary token sequences, through the statement parsers.
#include "ref_gram.h"
#include "flpr/Stmt_Parser_Exts.hh"
#include "flpr/parse_stmt.hh"
#include "flpr/TT_Stream.hh"
using Stmt::Stmt_Tree;
// what a run judges: 1 the structure of what is accepted (P13), 2 what is
// accepted and as what (P14), 3 both
static int judge = 3;
#define STRUCTURE(c, m) if (judge & 1) CHECK(c, m)
#define GRAMMAR(c, m) if (judge & 2) CHECK(c, m)
// ---- a statement, alone or between two others on a compound line ----------
struct Sub {
  LL_SEQ lls;
  TT_Range stmt;
  std::vector<const Token_Text *> tok;
  void make(const std::string &text, int place, size_t ntok) {
    std::string t = place == 0 ? text : place == 1 ? "aa ; " + text : place == 2 ? text + " ; bb ( 1 )" : "aa = ( 1 ; " + text + " ; ) bb ( 1 )";
    lls.emplace_back("      " + t);
    Logical_Line &l = lls.front();
    l.init_stmts();
    size_t i = place == 1 || place == 3 ? 1 : 0;
    CHECK(l.stmts().size() == (place == 0 ? 1u : place == 3 ? 3u : 2u), "harness: statements of the line");
    stmt = l.stmts()[i];
    for (auto it = stmt.begin(); it != stmt.end(); ++it) tok.push_back(&*it);
    CHECK(tok.size() == ntok, "a statement has the tokens that were written");
  }
  LL_TT_Range range() { return LL_TT_Range(lls.begin(), stmt); }
};
static int index_of(const Sub &s, TT_Range::const_iterator it) {
  for (size_t i = 0; i < s.tok.size(); i++)
    if (&*it == s.tok[i]) return (int)i;
  return -1;
}
struct Covered {
  int tag, from, to;
};
// every node covers the tokens of its branches, which follow each other; the
// leaves are the tokens
static void walk(Sub &s, Stmt_Tree::node &n, int &pos, std::vector<Covered> &all) {
  int b = pos;
  if (n.is_leaf()) {
    if (!n->token_range.empty()) {
      STRUCTURE(n->token_range.size() == 1, "a leaf is one token");
      int i = index_of(s, n->token_range.begin());
      STRUCTURE(i == pos, "the leaves are the statement's tokens in order");
      STRUCTURE(n->token_range.it() == s.lls.begin(), "a leaf refers to its line");
      STRUCTURE(n->syntag == s.tok[(size_t)i]->token || (n->syntag == Syntax_Tags::TK_NAME && GRec::is_name(s.tok[(size_t)i]->token)), "a leaf has its token's tag or is a name");
      pos++;
    }
  } else {
    for (auto &c : n.branches()) {
      STRUCTURE(c.trunk() == n.self(), "a branch knows its parent");
      walk(s, c, pos, all);
    }
    STRUCTURE(n->syntag != Syntax_Tags::HOIST, "no list markers are left");
    STRUCTURE((int)n->token_range.size() == pos - b, "a node covers as many tokens as its branches");
    if (pos > b) {
      STRUCTURE(index_of(s, n->token_range.begin()) == b, "a node begins with its first branch");
      STRUCTURE(index_of(s, std::prev(n->token_range.end())) == pos - 1, "a node ends with its last branch");
      STRUCTURE(n->token_range.it() == s.lls.begin(), "a node refers to its line");
    }
  }
  Covered c;
  c.tag = n->syntag;
  c.from = b;
  c.to = pos;
  all.push_back(c);
}
static int sound(Sub &s, Stmt_Tree &t, std::vector<Covered> &all) {
  int pos = 0;
  t.check();
  walk(s, *t, pos, all);
  return pos;
}
static Stmt_Tree parse(Sub &s, int tag, TT_Stream &ts) {
  return Stmt::parse_stmt_dispatch(tag, ts);
}
static bool bring(int &lo, int &hi) {
  int base = first_stmt();
  lo += base;
  hi += base;
  if (hi > last_stmt()) hi = last_stmt();
  return lo < hi;
}
static bool at_end(TT_Stream &ts, const Sub &s) { return ts.num_consumed() == (int)s.tok.size(); }
static bool keeps_spans(int tag) {
  switch (tag) {
  case Syntax_Tags::SG_SECTION_SUBSCRIPT:
  case Syntax_Tags::SG_SECTION_SUBSCRIPT_LIST:
  case Syntax_Tags::SG_PART_REF:
  case Syntax_Tags::SG_PROCEDURE_DESIGNATOR:
  case Syntax_Tags::SG_ACTUAL_ARG_SPEC:
  case Syntax_Tags::SG_ACTUAL_ARG_SPEC_LIST:
    return false;
  }
  return true;
}
// ---- any of the statements' parsers, to be chosen by the parser itself ------
static bool is_action(int tag) {
  switch (tag) {
#define A(x) case Syntax_Tags::SG_##x##_STMT:
  A(ALLOCATE) A(ASSIGNMENT) A(BACKSPACE) A(CALL) A(CLOSE) A(CONTINUE) A(CYCLE) A(DEALLOCATE) A(ENDFILE) A(ERROR_STOP)
  A(EVENT_POST) A(EVENT_WAIT) A(EXIT) A(FAIL_IMAGE) A(FLUSH) A(FORM_TEAM) A(GOTO) A(IF) A(INQUIRE) A(LOCK) A(NULLIFY)
  A(OPEN) A(POINTER_ASSIGNMENT) A(PRINT) A(READ) A(RETURN) A(REWIND) A(STOP) A(SYNC_ALL) A(SYNC_IMAGES) A(SYNC_MEMORY)
  A(SYNC_TEAM) A(UNLOCK) A(WAIT) A(WHERE) A(WRITE) A(COMPUTED_GOTO) A(ARITHMETIC_IF) A(FORALL) A(MACRO)
#undef A
    return true;
  }
  return false;
}
static bool is_other_spec(int tag) {
  switch (tag) {
#define A(x) case Syntax_Tags::SG_##x##_STMT:
  A(ACCESS) A(ALLOCATABLE) A(ASYNCHRONOUS) A(BIND) A(CODIMENSION) A(DIMENSION) A(EXTERNAL) A(INTENT) A(INTRINSIC)
  A(NAMELIST) A(OPTIONAL) A(POINTER) A(PROTECTED) A(SAVE) A(TARGET) A(VOLATILE) A(VALUE) A(COMMON) A(EQUIVALENCE)
#undef A
    return true;
  }
  return false;
}
// any token the scanner makes, from one symbolic byte
static const int LITS[] = {Syntax_Tags::SG_CHAR_LITERAL_CONSTANT, Syntax_Tags::SG_INT_LITERAL_CONSTANT, Syntax_Tags::SG_SIGNIFICAND};
static const int NLITS = 3, TK_FIRST = Syntax_Tags::TK_000_LB + 1, TK_LAST = Syntax_Tags::TK_ZZZ_UB - 1;
static int any_token(unsigned char b) {
  int lb = Syntax_Tags::KW_000_LB + 1, nk = Syntax_Tags::KW_ZZZ_UB - lb;
  int tl = TK_FIRST, nt = TK_LAST - TK_FIRST + 1;
  sx_assume(b < nk + nt + NLITS);
  if (b < nk) return lb + b;
  if (b < nk + nt) {
    int t = tl + (b - nk);
    sx_assume(t != Syntax_Tags::TK_SEMICOLON);
    return t;
  }
  return LITS[b - nk - nt];
}
// a derived type doesn't have an intrinsic type's name
static void no_intrinsic(int kw) {
  sx_assume(kw != Syntax_Tags::KW_INTEGER && kw != Syntax_Tags::KW_REAL && kw != Syntax_Tags::KW_COMPLEX && kw != Syntax_Tags::KW_LOGICAL && kw != Syntax_Tags::KW_CHARACTER && kw != Syntax_Tags::KW_DOUBLEPRECISION);
}
// a valid statement is given its kind among all action statements (or other
// specification statements), whatever its names are
extern "C" void gram_kind(int lo, int hi, int k, int place, int sym, int j) {
  judge = j;
  if (!bring(lo, hi)) return;
  Gram g;
  g.load(lo, hi);
  int r = lo + (int)sx_choose((unsigned)(hi - lo), "statement");
  int tag = GRULES[r].tag, group = is_action(tag) ? Syntax_Tags::SG_ACTION_STMT : Syntax_Tags::SG_OTHER_SPECIFICATION_STMT;
  GRAMMAR(Stmt::is_action_stmt(tag) == is_action(tag), "is_action_stmt knows the action statements");
  if (!is_action(tag) && !is_other_spec(tag)) return;
  if (sym && tag == Syntax_Tags::SG_MACRO_STMT) return;
  GGen w(g, k);
  w.rule(r);
  sx_note((std::string(GRULES[r].name) + ": " + w.text).c_str());
  if (sym)
    for (const GSpan &p : w.spans)
      if (p.tag == Syntax_Tags::SG_MACRO_STMT) return;
  Sub s;
  s.make(w.text, place, w.toks.size());
  if (sym && !w.names.empty()) {
    size_t i = (size_t)w.names[sx_choose((unsigned)w.names.size(), "name")];
    unsigned char kw;
    sx_symbolic(&kw, 1, "keyword");
    int lb = Syntax_Tags::KW_000_LB + 1, n = Syntax_Tags::KW_ZZZ_UB - lb;
    sx_assume(kw < n);
    for (const GSpan &p : w.spans)
      if (p.tag == Syntax_Tags::SG_DERIVED_TYPE_SPEC && p.from == (int)i) no_intrinsic(lb + kw);
    const_cast<Token_Text *>(s.tok[i])->token = lb + kw;
  }
  TT_Stream ts(s.range());
  Stmt_Tree t = Stmt::parse_stmt_dispatch(group, ts);
  GRAMMAR(t, "a valid statement is recognised");
  if (!t) return;
  GRAMMAR((*t)->syntag == group && t->num_branches() == 1, "a statement of the group");
  GRAMMAR((*t->branches().begin())->syntag == tag, "a statement is given its kind");
  STRUCTURE(at_end(ts, s), "the whole statement is consumed");
  std::vector<Covered> all;
  int m = sound(s, t, all);
  STRUCTURE(m == (int)s.tok.size(), "the tree covers the whole statement");
  sx_cover("recognised");
}
extern "C" void gram_ok(int lo, int hi, int k, int place, int sym, int j) {
  judge = j;
  if (!bring(lo, hi)) return;
  Gram g;
  g.load(lo, hi);
  int r = lo + (int)sx_choose((unsigned)(hi - lo), "statement");
  if (sym && GRULES[r].tag == Syntax_Tags::SG_MACRO_STMT) return; // some names are excluded there
  GGen w(g, k);
  w.rule(r);
  sx_note((std::string(GRULES[r].name) + ": " + w.text).c_str());
  Sub s;
  s.make(w.text, place, w.toks.size());
  if (sym)
    for (const GSpan &p : w.spans)
      if (p.tag == Syntax_Tags::SG_MACRO_STMT) return;
  for (size_t i = 0; i < s.tok.size(); i++) CHECK(s.tok[i]->token == w.toks[i], "harness: tokens of the sentence");
  if (sym && !w.names.empty()) {
    size_t i = (size_t)w.names[sx_choose((unsigned)w.names.size(), "name")];
    unsigned char kw;
    sx_symbolic(&kw, 1, "keyword");
    int lb = Syntax_Tags::KW_000_LB + 1, n = Syntax_Tags::KW_ZZZ_UB - lb;
    sx_assume(kw < n);
    for (const GSpan &p : w.spans)
      if (p.tag == Syntax_Tags::SG_DERIVED_TYPE_SPEC && p.from == (int)i) no_intrinsic(lb + kw);
    const_cast<Token_Text *>(s.tok[i])->token = lb + kw;
  }
  TT_Stream ts(s.range());
  Stmt_Tree t = parse(s, GRULES[r].tag, ts);
  GRAMMAR(t, "a valid statement is recognised");
  if (!t) return;
  CHECK((*t)->syntag == GRULES[r].tag, "the tree is tagged with the kind of statement");
  STRUCTURE(at_end(ts, s), "the whole statement is consumed");
  std::vector<Covered> all;
  int m = sound(s, t, all);
  STRUCTURE(m == (int)s.tok.size(), "the tree covers the whole statement");
  for (const GSpan &p : w.spans) {
    if (!keeps_spans(p.tag)) continue;
    if (GRULES[r].tag == Syntax_Tags::SG_READ_STMT && p.from == 1 && p.to == (int)s.tok.size()) continue; // "read (a)"
    if (p.tag == Syntax_Tags::SG_INTEGER_TYPE_SPEC && GRULES[r].tag == Syntax_Tags::SG_IMPLICIT_STMT) continue;
    bool found = false;
    for (const Covered &c : all) found = found || ((c.tag == p.tag || (p.tag == Syntax_Tags::SG_EXPR && c.tag == Syntax_Tags::SG_VARIABLE)) && c.from == p.from && c.to == p.to);
    if (!found) sx_note((w.text + " [" + Syntax_Tags::label(p.tag) + " " + std::to_string(p.from) + "-" + std::to_string(p.to) + "]").c_str());
    GRAMMAR(found, "each part of the statement has its node");
  }
  sx_cover("recognised");
}

// ---- sentences with one token changed: what is accepted is a statement -----
static std::string token_text(int tag) {
  // a spelling is needed only where the reference looks at it
  return tag == Syntax_Tags::SG_INT_LITERAL_CONSTANT ? "10" : "nn";
}
extern "C" void gram_mut(int lo, int hi, int k, int place, int what, int j) {
  judge = j;
  if (!bring(lo, hi)) return;
  Gram g;
  g.load(lo, hi);
  int r = lo + (int)sx_choose((unsigned)(hi - lo), "statement");
  GGen w(g, k);
  w.rule(r);
  size_t n = w.toks.size();
  if (what == 1 && n < 2) return;
  size_t at = sx_choose((unsigned)n, "token");
  if (what == 1 && at == 0 && w.toks[1] == Syntax_Tags::SG_INT_LITERAL_CONSTANT) return; // would be a label
  std::vector<std::string> words;
  // the words of the sentence, one per token
  {
    Logical_Line l("k " + w.text);
    auto it = l.fragments().begin();
    for (++it; it != l.fragments().end(); ++it) words.push_back(it->text());
  }
  CHECK(words.size() == n, "harness: tokens of the sentence");
  if (what == 1) words.erase(words.begin() + (long)at);
  else if (what == 0) words[at] = "nn";
  else words.insert(words.begin() + (long)at, "nn");
  std::string text;
  for (size_t i = 0; i < words.size(); i++) text += (i ? " " : "") + words[i];
  sx_note((std::string(GRULES[r].name) + ": " + text + " @" + std::to_string(at)).c_str());
  Sub s;
  s.make(text, place, words.size());
  if (what != 1) {
    unsigned char tag;
    sx_symbolic(&tag, 1, "tag");
    const_cast<Token_Text *>(s.tok[at])->token = any_token(tag);
  }
  TT_Stream ts(s.range());
  Stmt_Tree t = parse(s, GRULES[r].tag, ts);
  if (!t) {
    sx_cover("refused");
    return;
  }
  CHECK((*t)->syntag == GRULES[r].tag, "the tree is tagged with the kind of statement");
  std::vector<Covered> all;
  int m = sound(s, t, all);
  STRUCTURE(at_end(ts, s), "the whole statement is consumed");
  STRUCTURE(m == (int)s.tok.size(), "the tree covers the whole statement");
  sx_cover("accepted");
  GRec rec(g);
  for (size_t i = 0; i < s.tok.size(); i++) {
    GTok x;
    x.tag = (int)sx_concretize((uint64_t)s.tok[i]->token);
    x.text = words[i];
    if (what != 1 && i == at) x.text = token_text(x.tag);
    rec.t.push_back(x);
  }
  GRAMMAR(rec.whole(r), "what is accepted is a statement of its kind");
}
// ---- any tokens ---------------------------------------------------------------
extern "C" void gram_any(int lo, int hi, int n, int place) {
  judge = 1;
  if (!bring(lo, hi)) return;
  int r = lo + (int)sx_choose((unsigned)(hi - lo), "statement");
  std::string text;
  for (int i = 0; i < n; i++) text += i ? " nn" : "nn";
  Sub s;
  s.make(text, place, (size_t)n);
  for (int i = 0; i < n; i++) {
    unsigned char tag;
    sx_symbolic(&tag, 1, "tag");
    const_cast<Token_Text *>(s.tok[(size_t)i])->token = any_token(tag);
  }
  sx_note(GRULES[r].name);
  TT_Stream ts(s.range());
  Stmt_Tree t = parse(s, GRULES[r].tag, ts);
  if (!t) {
    sx_cover("refused");
    return;
  }
  CHECK((*t)->syntag == GRULES[r].tag, "the tree is tagged with the kind of statement");
  std::vector<Covered> all;
  int m = sound(s, t, all);
  STRUCTURE(at_end(ts, s), "the whole statement is consumed");
  STRUCTURE(m == (int)s.tok.size(), "the tree covers the whole statement");
  sx_cover("accepted");
}
