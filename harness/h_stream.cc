// Token streams (P21): looking ahead, moving, giving back, bracket matching,
// captures and expectations, against a plain sequence of tags and a position.
#include "sx.h"
#include "flpr/TT_Stream.hh"
#include "flpr/LL_Stmt_Src.hh"
#include "flpr/Logical_File.hh"
using namespace FLPR;
using ST = Syntax_Tags;
struct Line {
  LL_SEQ lls;
  TT_Range stmt;
  std::vector<Token_Text *> tok;
  int n = 0, pos = 0;
  // a statement of n tokens alone, or with statements around it
  void make(int n_, int place) {
    n = n_;
    std::string t;
    for (int i = 0; i < n; i++) t += i ? " x" : "x";
    std::string all = place == 0 ? t : place == 1 ? "(aa) ; " + t : place == 2 ? t + " ; ) [ bb ( 1 )" : "aa = ( [ 1 ; " + t + " ; ] ) bb ( 1 )";
    lls.emplace_back("      " + all);
    Logical_Line &l = lls.front();
    l.init_stmts();
    size_t i = place == 1 || place == 3 ? 1 : 0;
    CHECK(l.stmts().size() == (place == 0 ? 1u : place == 3 ? 3u : 2u), "harness: statements of the line");
    stmt = l.stmts()[i];
    for (auto it = stmt.begin(); it != stmt.end(); ++it) tok.push_back(&*it);
    CHECK((int)tok.size() == n, "harness: tokens of the statement");
  }
  LL_TT_Range range() { return LL_TT_Range(lls.begin(), stmt); }
  int tag(int i) const { return i >= 0 && i < n ? tok[(size_t)i]->token : (int)ST::BAD; }
};
static void same(TT_Stream &ts, Line &l) {
  CHECK(ts.num_consumed() == l.pos, "number of consumed tokens");
  CHECK(ts.curr() == l.tag(l.pos - 1), "the current token");
  CHECK(ts.curr_tt().token == l.tag(l.pos - 1) && (l.pos == 0 || &ts.curr_tt() == l.tok[(size_t)l.pos - 1]), "the current token's text");
  CHECK(ts.peek() == l.tag(l.pos), "the next token");
  for (int k = 0; k <= 3; k++) {
    int i = l.pos - 1 + k;
    CHECK(ts.peek(k) == l.tag(i), "a token further on");
    CHECK(ts.peek_tt(k).token == l.tag(i) && (i < 0 || i >= l.n || &ts.peek_tt(k) == l.tok[(size_t)i]), "the text of a token further on");
  }
  CHECK(ts.peek_back() == l.tag(l.n - 1), "the last token");
  CHECK(ts.next_iterator() == std::next(l.stmt.begin(), l.pos), "the place of the next token");
  CHECK(ts.mark() == ts.next_iterator(), "a mark is the place of the next token");
}
static const int tags[] = {ST::TK_NAME, ST::TK_PARENL, ST::TK_PARENR, ST::TK_BRACKETL, ST::TK_BRACKETR, ST::KW_IF};
static void dress(Line &l, int kinds) {
  for (int i = 0; i < l.n; i++) l.tok[(size_t)i]->token = tags[sx_choose((unsigned)kinds, "tag")];
}
// the token after which the brackets that open at i are closed, or -1
static int closing(const Line &l, int i, int open, int close) {
  int depth = 0;
  for (int k = i; k < l.n; k++) {
    if (l.tag(k) == open) depth++;
    if (l.tag(k) == close && --depth == 0) return k;
  }
  return -1;
}
static int opening(const Line &l, int i) {
  int depth = 0;
  for (int k = i; k >= 0; k--) {
    if (l.tag(k) == ST::TK_PARENR) depth++;
    if (l.tag(k) == ST::TK_PARENL && --depth == 0) return k;
  }
  return -1;
}
// brackets in any place of any statement
extern "C" void stream_match(int n, int place, int kinds) {
  Line l;
  l.make(n, place);
  dress(l, kinds);
  TT_Stream ts(l.range());
  unsigned at = sx_choose((unsigned)n, "place");
  if (at) ts.consume((int)at);
  l.pos = (int)at;
  same(ts, l);
  unsigned op = sx_choose(4, "operation");
  bool ok;
  int want;
  switch (op) {
  case 0:
    sx_assume(l.tag(l.pos) == ST::TK_PARENL);
    ok = ts.move_to_close_paren();
    want = closing(l, l.pos, ST::TK_PARENL, ST::TK_PARENR);
    if (want >= 0) want++;
    break;
  case 1:
    sx_assume(l.tag(l.pos) == ST::TK_PARENL);
    ok = ts.move_before_close_paren();
    want = closing(l, l.pos, ST::TK_PARENL, ST::TK_PARENR);
    break;
  case 2:
    sx_assume(l.tag(l.pos) == ST::TK_BRACKETL);
    ok = ts.ignore_bracket_expr();
    want = closing(l, l.pos, ST::TK_BRACKETL, ST::TK_BRACKETR);
    if (want >= 0) want++;
    break;
  default:
    ok = ts.move_to_open_paren();
    want = l.tag(l.pos - 1) == ST::TK_PARENR ? opening(l, l.pos - 1) : -1;
    if (want >= 0) want++;
    break;
  }
  CHECK(ok == (want >= 0), "whether there is a matching bracket");
  if (ok) {
    sx_cover("matched");
    l.pos = want;
    same(ts, l);
  } else {
    CHECK(ts.num_consumed() >= 0 && ts.num_consumed() <= n, "a move without a match stays in the statement");
    l.pos = ts.num_consumed();
    same(ts, l);
  }
}
// any sequence of movements
extern "C" void stream_moves(int n, int place, int steps) {
  Line l;
  if (n) l.make(n, place);
  else {
    l.make(1, place);
    l.stmt = TT_Range(l.stmt.end(), l.stmt.end());
    l.tok.clear();
    l.n = 0;
  }
  dress(l, 1);
  TT_Stream ts(l.range());
  same(ts, l);
  CHECK(ts.source().equal(l.range()), "the source of a stream");
  TT_Range::iterator m = ts.mark();
  int mp = 0, cap_from = 0, cap_to = 0;
  TT_Stream::Capture cap;
  CHECK(cap.empty() && cap.size() == 0, "a capture without an end is empty");
  for (int s = 0; s < steps; s++) {
    switch (sx_choose(9, "operation")) {
    case 0: {
      unsigned k = sx_choose((unsigned)(l.n - l.pos) + 1, "tokens");
      if (k == 1) ts.consume();
      else ts.consume((int)k);
      l.pos += (int)k;
      break;
    }
    case 1:
      ts.put_back();
      if (l.pos) l.pos--;
      break;
    case 2:
      ts.rewind();
      l.pos = 0;
      break;
    case 3:
      m = ts.mark();
      mp = l.pos;
      break;
    case 4:
      ts.rewind(m);
      l.pos = mp;
      break;
    case 5:
      ts.consume_until_eol();
      l.pos = l.n;
      break;
    case 6: {
      unsigned k = sx_choose((unsigned)(l.n - l.pos) + 1, "tokens");
      LL_TT_Range r = ts.digest((int)k);
      CHECK(r.it() == l.lls.begin() && (int)r.size() == (int)k && r.empty() == (k == 0), "the range of digested tokens");
      if (k) CHECK(&r.front() == l.tok[(size_t)l.pos] && &r.back() == l.tok[(size_t)l.pos + k - 1], "the digested tokens");
      l.pos += (int)k;
      break;
    }
    case 7:
      cap = ts.capture_begin();
      CHECK(cap.empty() && cap.size() == 0, "a capture without an end is empty");
      cap_from = cap_to = l.pos;
      ts.capture_end(cap);
      CHECK(cap.empty() && cap.size() == 0, "a capture of nothing is empty");
      break;
    default: {
      bool eol = ts.is_eol();
      CHECK(eol == (l.pos == l.n), "the end of the statement");
      if (eol) ts.expect_eol();
      else ts.expect_tok(l.tag(l.pos)), l.pos++;
    }
    }
    same(ts, l);
    if (cap_from && cap_from <= l.pos) {
      ts.capture_end(cap);
      cap_to = l.pos;
      CHECK(cap.size() == cap_to - cap_from && cap.empty() == (cap_from == cap_to), "size of a capture");
      std::string t = "-", u = "-";
      for (int i = cap_from; i < cap_to; i++) u += l.tok[(size_t)i]->text();
      ts.capture_text(cap, t);
      CHECK(t == u, "text of a capture");
      LL_TT_Range r = ts.capture_to_range(cap);
      CHECK(r.it() == l.lls.begin() && (int)r.size() == cap_to - cap_from, "range of a capture");
      if (cap_to > cap_from) CHECK(&r.front() == l.tok[(size_t)cap_from] && &r.back() == l.tok[(size_t)cap_to - 1], "tokens of a capture");
    }
  }
}
// expectations that are met, and names instead of keywords
extern "C" void stream_expect(int place) {
  static const char *const text[] = {"Nick", "IF", "12", "x9_"};
  LL_SEQ lls;
  unsigned a = sx_choose(4, "first"), b = sx_choose(4, "second"), c = sx_choose(4, "third");
  sx_assume(place || a != 2); // a label
  std::string t = std::string(text[a]) + " " + text[b] + " " + text[c];
  lls.emplace_back(std::string("      ") + (place ? "if ; " + t + " ; if" : t));
  Logical_Line &l = lls.front();
  l.init_stmts();
  TT_Range r = l.stmts()[place ? 1 : 0];
  TT_Stream ts(LL_TT_Range(lls.begin(), r));
  std::vector<unsigned> k{a, b, c};
  int from = (int)sx_choose(3, "from"), many = (int)sx_choose(5, "many") - 1;
  if (from) ts.consume(from);
  if (sx_choose(2, "names")) {
    if (many < 0) ts.unkeyword();
    else ts.unkeyword(many);
  } else
    many = 0;
  CHECK(ts.num_consumed() == from, "making names of keywords leaves the place");
  ts.rewind();
  for (int i = 0; i < 3; i++) {
    bool now = k[(size_t)i] == 1 && i >= from && (many < 0 || i < from + many);
    if (k[(size_t)i] == 2) {
      CHECK(ts.peek() == ST::SG_INT_LITERAL_CONSTANT, "tag of a number");
      CHECK(ts.expect_integer() == 12, "an expected integer");
    } else if (k[(size_t)i] == 1 && !now) {
      CHECK(ts.peek() == ST::KW_IF && ST::is_keyword(ts.peek()) && ST::is_name(ts.peek()), "tag of a keyword");
      ts.expect_tok(ST::KW_IF);
    } else {
      CHECK(ts.peek() == ST::TK_NAME && ST::is_name(ts.peek()) && !ST::is_keyword(ts.peek()), "tag of a name");
      if (sx_choose(2, "lower")) CHECK(ts.expect_id_low() == (k[(size_t)i] == 1 ? "if" : k[(size_t)i] == 0 ? "nick" : "x9_"), "an expected name in lower case");
      else CHECK(ts.expect_id() == text[k[(size_t)i]], "an expected name");
    }
    CHECK(ts.num_consumed() == i + 1, "an expected token is consumed");
  }
  ts.expect_eol();
  if (place) {
    CHECK(l.stmts()[0].front().token == ST::KW_IF && l.stmts()[2].front().token == ST::KW_IF, "other statements keep their keywords");
  }
  // a stream over all of the line's tokens sees semicolons as ends
  TT_Stream all(LL_TT_Range(lls.begin(), TT_Range(l.fragments().begin(), l.fragments().end())));
  if (place) {
    CHECK(!all.is_eol(), "a token is no end");
    all.consume();
    CHECK(all.is_eol() && all.num_consumed() == 2, "a semicolon is an end, and is consumed");
    all.consume(3);
    CHECK(all.is_eol() && all.num_consumed() == 6, "a semicolon is an end, and is consumed");
    all.consume();
    CHECK(all.is_eol() && all.num_consumed() == 7, "the end of the line");
  }
}
