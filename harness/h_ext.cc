// Extensions of the language (P22): registered statement parsers, syntax tags.
#include "sx.h"
#include "flpr/Parsed_File.hh"
#include "flpr/Stmt_Parser_Exts.hh"
#include "flpr/Stmt_Parsers.hh"
#include "flpr/parse_stmt.hh"
using namespace FLPR;
using ST = Syntax_Tags;
using PF = Parsed_File<>;
enum Mine { MY_ONE = ST::CLIENT_EXTENSION, MY_TWO, MY_DECL, MY_LAST };
namespace FLPR::Stmt {
Stmt_Tree my_one(TT_Stream &ts) { // foo name
  constexpr auto p = seq(MY_ONE, tok(ST::TK_NAME), tok(ST::TK_NAME), eol());
  if (ts.peek_tt().lower() != "foo") return Stmt_Tree{};
  return p(ts);
}
Stmt_Tree my_two(TT_Stream &ts) { // foo name [name], or nothing but consumed tokens
  constexpr auto p = seq(MY_TWO, tok(ST::TK_NAME), tok(ST::TK_NAME), opt(tok(ST::TK_NAME)), eol());
  if (ts.peek_tt().lower() != "foo") {
    ts.consume_until_eol();
    return Stmt_Tree{};
  }
  return p(ts);
}
Stmt_Tree my_decl(TT_Stream &ts) { // bar name
  constexpr auto p = seq(MY_DECL, tok(ST::TK_NAME), tok(ST::TK_NAME), eol());
  if (ts.peek_tt().lower() != "bar") return Stmt_Tree{};
  return p(ts);
}
Stmt_Tree my_last(TT_Stream &ts) { // bar name [name], or nothing but consumed tokens
  constexpr auto p = seq(MY_LAST, tok(ST::TK_NAME), tok(ST::TK_NAME), opt(tok(ST::TK_NAME)), eol());
  if (ts.peek_tt().lower() != "bar") {
    ts.consume_until_eol();
    return Stmt_Tree{};
  }
  return p(ts);
}
// the comma after the control list that some compilers allow
Stmt_Tree my_write(TT_Stream &ts) {
  constexpr auto p = seq(ST::SG_WRITE_STMT, tok(ST::KW_WRITE), tag_if(ST::SG_IO_CONTROL_SPEC_LIST, rule(consume_parens)), tok(ST::TK_COMMA), opt(list(ST::SG_OUTPUT_ITEM_LIST, rule(output_item))), eol());
  return p(ts);
}
} // namespace FLPR::Stmt
struct Kind {
  const char *text;
  int tag;      // without extensions, BAD if it is no statement
  int exts;     // bits of the extensions that accept it
};
static const Kind EXEC[] = {
    {"call s", ST::SG_CALL_STMT, 0},
    {"x = 1", ST::SG_ASSIGNMENT_STMT, 0},
    {"write (*,100) a", ST::SG_WRITE_STMT, 0},
    {"foo = x", ST::SG_ASSIGNMENT_STMT, 0},
    {"foo x", ST::BAD, 1 | 2},
    {"foo x y", ST::BAD, 2},
    {"write (*,100), a", ST::BAD, 4},
    {"if (a) foo x", ST::BAD, 1 | 2},
    {"foo x y z", ST::BAD, 0},
};
static const Kind SPEC[] = {
    {"integer i", ST::SG_TYPE_DECLARATION_STMT, 0},
    {"bar x", ST::BAD, 8 | 16},
    {"bar x y", ST::BAD, 16},
    {"dimension b(2)", ST::SG_OTHER_SPECIFICATION_STMT, 0},
};
struct Reg {
  std::vector<int> order; // of the action statements, as registered
  std::vector<int> decls; // and of the specification statements
  int all = 0;
};
static Reg enroll(bool decls) {
  Reg r;
  auto &e = Stmt::get_parser_exts();
  e.clear();
  switch (sx_choose(6, "extensions")) {
  case 0: break;
  case 1: r.order = {1}; break;
  case 2: r.order = {2}; break;
  case 3: r.order = {1, 2, 4}; break;
  case 4: r.order = {2, 1}; break;
  default: r.order = {4, 2};
  }
  for (int o : r.order) {
    e.register_action_stmt(o == 1 ? Stmt::my_one : o == 2 ? Stmt::my_two : Stmt::my_write);
    r.all |= o;
  }
  switch (decls ? sx_choose(4, "declarations") : 2) {
  case 0: break;
  case 1: r.decls = {8}; break;
  case 2: r.decls = {8, 16}; break;
  default: r.decls = {16, 8};
  }
  for (int o : r.decls) {
    e.register_other_specification_stmt(o == 8 ? Stmt::my_decl : Stmt::my_last);
    r.all |= o;
  }
  return r;
}
static int expected(const Kind &k, const Reg &r, int &inner) {
  inner = k.tag;
  if (k.tag != ST::BAD) return k.tag;
  if (k.exts & r.all & (8 | 16)) {
    for (int o : r.decls)
      if (o & k.exts) {
        inner = o == 8 ? MY_DECL : MY_LAST;
        break;
      }
    return ST::SG_OTHER_SPECIFICATION_STMT;
  }
  for (int o : r.order)
    if (o & k.exts) {
      inner = o == 1 ? (int)MY_ONE : o == 2 ? (int)MY_TWO : (int)ST::SG_WRITE_STMT;
      return k.text[0] == 'i' ? (int)ST::SG_IF_STMT : inner;
    }
  return ST::BAD;
}
// statements of the language and of extensions in the parts of a program
extern "C" void ext_prog(int specs, int execs, int shape) {
  Reg r = enroll(specs);
  std::vector<const Kind *> ks;
  std::string text = "program p\n";
  for (int i = 0; i < specs; i++) {
    ks.push_back(&SPEC[sx_choose(4, "specification")]);
    text += std::string(ks.back()->text) + "\n";
  }
  if (shape == 1) text += "if (q) then\n";
  if (shape == 2) text += "do 10 j = 1, 2\n";
  for (int i = 0; i < execs; i++) {
    ks.push_back(&EXEC[sx_choose(9, "statement")]);
    text += std::string(shape == 2 && i == execs - 1 ? "10 " : "") + ks.back()->text + (shape == 3 && i + 1 < execs ? " ; " : "\n");
  }
  if (shape == 1) text += "end if\n";
  text += "end program\n";
  SxIn in(text);
  PF f(in.is(), "t.f90", 0);
  CHECK(bool(f), "a file is read");
  bool good = true;
  for (auto k : ks) {
    int inner;
    good &= expected(*k, r, inner) != ST::BAD;
  }
  auto &t = f.parse_tree();
  CHECK(good == bool(f) && good == !t.empty(), "a file is accepted exactly if all its statements are known");
  if (!good) {
    sx_cover("rejected");
    Stmt::get_parser_exts().clear();
    return;
  }
  sx_cover("accepted");
  t.check();
  auto s = f.statements().begin();
  ++s;
  size_t at = 0, n = 1;
  for (auto k : ks) {
    if ((shape == 1 || shape == 2) && at == (size_t)specs) ++s;
    int inner, tag = expected(*k, r, inner);
    CHECK(s->syntax_tag() == tag && s->stmt_tag(false) == tag, "tag of a statement");
    CHECK(s->stmt_tag(true) == (tag == ST::SG_IF_STMT ? -inner : tag), "tag of a statement inside an if statement");
    CHECK(s->has_hook(), "a statement leads to its node");
    auto c = f.stmt_to_node_cursor(s);
    CHECK(c->is_stmt() && c->ll_stmt_iter() == s, "a statement's node");
    // the tree has all the statement's tokens; so has a tree built anew
    for (int again = 0; again < 2; again++) {
      auto &st = s->stmt_tree();
      CHECK(!st.empty(), "a statement has a tree");
      st.check();
      auto k2 = st.ccursor();
      CHECK(k2->token_range.size() == s->size() && k2->token_range.begin() == s->begin() && k2->token_range.end() == s->end(), "a statement's tree covers it");
      if (k2->syntag == ST::SG_ACTION_STMT) k2.down();
      CHECK(k2->syntag == tag, "a tag in the tree of a statement");
      if (tag == ST::SG_OTHER_SPECIFICATION_STMT && (inner == MY_DECL || inner == MY_LAST)) {
        k2.down();
        CHECK(k2->syntag == inner, "a declaration under its kind");
      }
      s->drop_stmt_tree();
    }
    ++s, ++at, ++n;
  }
  // without the extensions the language is what it was
  Stmt::get_parser_exts().clear();
  SxIn in2(text);
  PF g(in2.is(), "t.f90", 0);
  bool plain = true;
  for (auto k : ks) plain &= k->tag != ST::BAD;
  CHECK(plain == !g.parse_tree().empty(), "cleared extensions are gone");
}
// every tag there is, and some that clients add
extern "C" void ext_tags(int lo, int hi) {
  int types[3] = {-1, -1, -1};
  static const char *const names[] = {"one", "two", "three"};
  unsigned short v;
  sx_symbolic(&v, 2, "tag");
  sx_assume(v >= lo && v < hi && v < ST::CLIENT_EXTENSION + 5);
  if (v >= ST::CLIENT_EXTENSION)
    for (unsigned i : {2u, 0u, 1u})
      if (sx_choose(2, "registered")) {
        types[i] = (int)sx_choose(6, "type");
        CHECK(ST::register_ext(MY_ONE + (int)i, names[i], types[i]), "a tag is registered");
      }
  int tag = (int)sx_concretize(v);
  int type = ST::type(tag);
  std::string label = ST::label(tag);
  if (tag >= ST::CLIENT_EXTENSION) {
    int k = tag - ST::CLIENT_EXTENSION;
    bool known = k < 3 && types[k] >= 0;
    CHECK(type == (known ? types[k] : 4), "type of a client's tag");
    CHECK(label == (known ? std::string(names[k]) : "<client-extension+" + std::to_string(k) + ">"), "label of a client's tag");
  } else {
    bool kw = tag > ST::KW_000_LB && tag < ST::KW_ZZZ_UB, tk = tag > ST::TK_000_LB && tag < ST::TK_ZZZ_UB;
    bool pg = tag > ST::PG_000_LB && tag < ST::PG_ZZZ_UB, sg = tag > ST::SG_000_LB && tag < ST::SG_ZZZ_UB;
    CHECK(kw ? type == 4 : tk ? type == 3 : pg ? type == 1 || type == 2 : sg ? type == 1 || type == 2 || type == 5 : type == 0, "type of a tag");
    CHECK(!label.empty(), "label of a tag");
  }
  CHECK(ST::is_keyword(tag) == (type == 4), "a keyword");
  CHECK(ST::is_name(tag) == (tag == ST::TK_NAME || type == 4), "what may be a name");
  SxOut o;
  ST::print(o.os(), tag);
  CHECK(o.str() == label, "a printed tag");
}
