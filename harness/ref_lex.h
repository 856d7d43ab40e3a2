// Reference tokeniser for the text of one statement line, written from the
// Fortran lexical rules (longest token first).
#pragma once
#include "ref_words.h"
#include "sx.h"
using FLPR::Syntax_Tags;
struct RefTok {
  std::string txt;
  int tag;
  size_t at; // offset in the text
};
static inline char rl_low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
static inline bool rl_dig(char c) { return c >= '0' && c <= '9'; }
static inline bool rl_let(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
struct RefLex {
  const std::string &s;
  std::vector<RefTok> out;
  explicit RefLex(const std::string &x) : s(x) { run(); }
  char at(size_t i) const { return i < s.size() ? s[i] : '\0'; }
  size_t digits(size_t i) const {
    while (rl_dig(at(i))) i++;
    return i;
  }
  size_t name(size_t i) const { // i if there is none
    if (!rl_let(at(i))) return i;
    while (rl_let(at(i)) || rl_dig(at(i)) || at(i) == '_') i++;
    return i;
  }
  size_t kind(size_t i) const { // _kind, or i
    if (at(i) != '_') return i;
    size_t d = digits(i + 1), n = name(i + 1);
    if (d > i + 1) return d;
    if (n > i + 1) return n;
    return i;
  }
  size_t expo(size_t i) const { // exponent, or i
    char c = rl_low(at(i));
    if (c != 'e' && c != 'd') return i;
    size_t k = i + 1;
    if (at(k) == '+' || at(k) == '-') k++;
    size_t e = digits(k);
    return e > k ? e : i;
  }
  size_t signif(size_t i) const { // digits with a point, or i
    size_t d = digits(i);
    if (at(d) != '.') return i;
    size_t e = digits(d + 1);
    if (d == i && e == d + 1) return i;
    return e;
  }
  size_t quoted(size_t i) const { // a delimited literal, or i
    char q = at(i);
    if (q != '\'' && q != '"') return i;
    size_t k = i + 1;
    for (;;) {
      while (k < s.size() && s[k] != q) k++;
      if (k >= s.size()) return i;
      k++;
      if (at(k) != q) return k;
      // a doubled delimiter stands for itself, provided the literal is closed later
      size_t j = k + 1;
      bool closed = false;
      for (size_t z = j; z < s.size(); z++) closed |= s[z] == q;
      if (!closed) return k;
      k = j;
    }
  }
  size_t word(size_t i, const char *w) const {
    size_t k = i;
    for (; *w; w++, k++)
      if (rl_low(at(k)) != *w) return i;
    return k;
  }
  void put(size_t b, size_t e, int tag) { out.push_back({s.substr(b, e - b), tag, b}); }
  void run() {
    size_t i = 0;
    bool real = false; // right after (part of) a real literal
    while (i < s.size()) {
      if (real) {
        size_t e;
        if ((e = signif(i)) > i || (e = digits(i)) > i) put(i, e, Syntax_Tags::SG_SIGNIFICAND);
        else if ((e = expo(i)) > i) {
          put(i, i + 1, Syntax_Tags::SG_EXPONENT_LETTER);
          put(i + 1, e, Syntax_Tags::SG_EXPONENT);
        } else if ((e = kind(i)) > i) {
          put(i, i + 1, Syntax_Tags::TK_UNDERSCORE);
          put(i + 1, e, Syntax_Tags::SG_KIND_PARAM);
        } else {
          real = false;
          continue;
        }
        i = e;
        continue;
      }
      char c = s[i];
      if (c == ' ' || c == '\t' || c == '\r') {
        i++;
        continue;
      }
      // literals with an optional kind prefix
      if (c == '\'' || c == '"') {
        size_t e = quoted(i);
        if (e > i) {
          put(i, e, Syntax_Tags::SG_CHAR_LITERAL_CONSTANT);
          i = e;
        } else {
          put(i, i + 1, Syntax_Tags::UNKNOWN);
          i++;
        }
        continue;
      }
      if (rl_let(c)) {
        size_t e = name(i);
        if (s[e - 1] == '_' && quoted(e) > e) {
          e = quoted(e);
          put(i, e, Syntax_Tags::SG_CHAR_LITERAL_CONSTANT);
        } else
          word_token(i, e);
        i = e;
        continue;
      }
      if (rl_dig(c)) {
        size_t d = digits(i);
        if (at(d) == '_' && quoted(d + 1) > d + 1) {
          size_t e = quoted(d + 1);
          put(i, e, Syntax_Tags::SG_CHAR_LITERAL_CONSTANT);
          i = e;
          continue;
        }
        // 1.eq.x is an integer and an operator
        bool op = false;
        if (at(d) == '.') {
          size_t k = d + 1;
          while (rl_let(at(k))) k++;
          op = k > d + 1 && at(k) == '.';
        }
        if (!op && (signif(i) > i || expo(d) > d)) {
          real = true;
          continue;
        }
        size_t e = op ? d : kind(d);
        put(i, e, Syntax_Tags::SG_INT_LITERAL_CONSTANT);
        i = e;
        continue;
      }
      if (c == '.') {
        if (rl_dig(at(i + 1))) {
          real = true;
          continue;
        }
        if (at(i + 1) == '.') {
          put(i, i + 2, Syntax_Tags::TK_DBL_DOT);
          i += 2;
          continue;
        }
        size_t k = i + 1;
        while (rl_let(at(k))) k++;
        if (k > i + 1 && at(k) == '.') {
          static const struct { const char *w; int t; } OPS[] = {
              {".eq.", Syntax_Tags::TK_REL_EQ}, {".ne.", Syntax_Tags::TK_REL_NE}, {".lt.", Syntax_Tags::TK_REL_LT}, {".le.", Syntax_Tags::TK_REL_LE}, {".gt.", Syntax_Tags::TK_REL_GT}, {".ge.", Syntax_Tags::TK_REL_GE}, {".not.", Syntax_Tags::TK_NOT_OP}, {".and.", Syntax_Tags::TK_AND_OP}, {".or.", Syntax_Tags::TK_OR_OP}, {".eqv.", Syntax_Tags::TK_EQV_OP}, {".neqv.", Syntax_Tags::TK_NEQV_OP}, {".false.", Syntax_Tags::TK_FALSE_CONSTANT}, {".true.", Syntax_Tags::TK_TRUE_CONSTANT}};
          int tag = Syntax_Tags::TK_DEF_OP;
          size_t e = k + 1;
          for (auto &o : OPS)
            if (word(i, o.w) == e) tag = o.t;
          if (tag == Syntax_Tags::TK_FALSE_CONSTANT || tag == Syntax_Tags::TK_TRUE_CONSTANT) e = kind(e);
          put(i, e, tag);
          i = e;
          continue;
        }
        put(i, i + 1, Syntax_Tags::UNKNOWN);
        i++;
        continue;
      }
      static const struct { char a, b; int t; } SY[] = {
          {':', ':', Syntax_Tags::TK_DBL_COLON}, {'*', '*', Syntax_Tags::TK_POWER_OP}, {'/', '/', Syntax_Tags::TK_CONCAT}, {'=', '>', Syntax_Tags::TK_ARROW}, {'=', '=', Syntax_Tags::TK_REL_EQ}, {'/', '=', Syntax_Tags::TK_REL_NE}, {'<', '=', Syntax_Tags::TK_REL_LE}, {'>', '=', Syntax_Tags::TK_REL_GE},
          {'(', 0, Syntax_Tags::TK_PARENL}, {')', 0, Syntax_Tags::TK_PARENR}, {'[', 0, Syntax_Tags::TK_BRACKETL}, {']', 0, Syntax_Tags::TK_BRACKETR}, {'+', 0, Syntax_Tags::TK_PLUS}, {'-', 0, Syntax_Tags::TK_MINUS}, {'=', 0, Syntax_Tags::TK_EQUAL}, {':', 0, Syntax_Tags::TK_COLON}, {';', 0, Syntax_Tags::TK_SEMICOLON}, {'/', 0, Syntax_Tags::TK_SLASHF}, {'%', 0, Syntax_Tags::TK_PERCENT}, {',', 0, Syntax_Tags::TK_COMMA}, {'*', 0, Syntax_Tags::TK_ASTERISK}, {'|', 0, Syntax_Tags::TK_VBAR}, {'<', 0, Syntax_Tags::TK_REL_LT}, {'>', 0, Syntax_Tags::TK_REL_GT}};
      bool hit = false;
      for (auto &y : SY)
        if (c == y.a && (!y.b || at(i + 1) == y.b)) {
          size_t e = i + (y.b ? 2 : 1);
          put(i, e, y.t);
          i = e;
          hit = true;
          break;
        }
      if (!hit) {
        put(i, i + 1, Syntax_Tags::UNKNOWN);
        i++;
      }
    }
  }
  void word_token(size_t b, size_t e) {
    for (int k = 0; k < REF_NKW; k++)
      if (strlen(REF_KW[k].txt) == e - b && word(b, REF_KW[k].txt) == e) {
        put(b, e, REF_KW[k].tag);
        return;
      }
    for (int k = 0; k < REF_NSMASH; k++)
      if (strlen(REF_SMASH[k].txt) == e - b && word(b, REF_SMASH[k].txt) == e) {
        put(b, b + (size_t)REF_SMASH[k].at, REF_SMASH[k].t1);
        put(b + (size_t)REF_SMASH[k].at, e, REF_SMASH[k].t2);
        return;
      }
    put(b, e, Syntax_Tags::TK_NAME);
  }
};
