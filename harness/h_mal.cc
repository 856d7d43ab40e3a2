// Malformed input (P16): whatever a file holds, reading, parsing and printing
// it ends with an answer; a statement is either wholly understood or rejected.
#include "edit_util.h"
#include "flpr/Parsed_File.hh"
using PF = Parsed_File<>;
static void leaves(PF::Parse_Tree::node &n, std::vector<const LL_Stmt *> &out) {
  if (n.is_leaf()) {
    if (n->is_stmt()) out.push_back(&n->ll_stmt());
    return;
  }
  for (auto &b : n.branches()) leaves(b, out);
}
static void tokens_of(Stmt::Stmt_Tree::node const &n, std::vector<const Token_Text *> &out) {
  if (n.is_leaf()) {
    for (auto it = n->token_range.begin(); it != n->token_range.end(); ++it) out.push_back(&*it);
    return;
  }
  for (auto &b : n.branches()) tokens_of(b, out);
}
static bool run_file(const std::string &text, bool fixed = false) {
  SxIn in(text);
  PF f(in.is(), "t", fixed ? 72 : 0, fixed ? File_Type::FIXEDFMT : File_Type::FREEFMT);
  bool ok = false;
  if (f) {
    auto &t = f.parse_tree();
    ok = bool(f);
    CHECK(ok || t.empty(), "no tree for a rejected file");
    if (ok && !f.statements().empty()) {
      std::vector<const LL_Stmt *> l, w;
      leaves(*t, l);
      for (auto &s : f.statements()) w.push_back(&s);
      CHECK(l == w, "an accepted file has all its statements in the tree");
      for (auto &s : f.statements()) {
        std::vector<const Token_Text *> a, b;
        for (auto it = s.begin(); it != s.end(); ++it) b.push_back(&*it);
        CHECK(!s.stmt_tree().empty(), "an accepted statement has a tree");
        tokens_of(*s.stmt_tree(), a);
        CHECK(a == b, "an accepted statement has all its tokens in the tree, in order");
      }
      sx_cover("accepted");
    }
  }
  SxOut o;
  for (auto &l : f.logical_lines()) o.os() << l;
  if (!ok) sx_cover("rejected");
  return ok;
}
static const char *const PRE[] = {
    "x", "call s", "if (a", "if (a) ", "do ", "do 10 ", "allocate (a", "read ", "write (", "print ",           // 0-9
    "open (1", "goto ", "select case", "case ", "forall (", "where (", "integer ", "real (", "character (", "type ", // 10-19
    "type (", "data a", "common ", "dimension a", "format (", "use m", "import ", "implicit ", "interface ", "procedure ", // 20-29
    "enum, ", "equivalence ", "namelist ", "end ", "a: ", "stop ", "x = ", "x%y", "x = 1.", "return ",             // 30-39
    "integer, dimension(", "class (", "subroutine s(", "function f", "generic ", "save ", "sync ", "event post(", "lock (", "inquire (", // 40-49
    "x(1", "x[", "x = [", "x = (/", "intent(", "bind(", "parameter (", "deallocate(", "nullify (", "associate (",  // 50-59
    "block ", "entry e", "module ", "program ", "rank ", "class ", "abstract ", "else ", "contains ", "include 'a' ", // 60-69
    "exit ", "double", "elemental ", "submodule (", "pointer :: ", "codimension a[", "private ", "final ", "enumerator ", "do while (" // 70-79
};
constexpr int NPRE = sizeof PRE / sizeof PRE[0];
static const char *const ALPHA[] = {"(),=a ", ":=1*a,", "()[]a%", "'\"&;! ", "+-.e1_", "/()a1,"};
static const char *const TAIL[] = {"\nend\n", "", "\nx = 1\nend program\n"};
// statements that start with PRE[k], followed by n symbolic characters
extern "C" void mal_chars(int lo, int hi, int n, int alpha, int tail) {
  int k = lo + (int)sx_choose((unsigned)((hi < NPRE ? hi : NPRE) - lo), "start");
  run_file(std::string(PRE[k]) + sx_str((size_t)n, ALPHA[alpha], "t") + TAIL[tail]);
}
// n arbitrary bytes as the whole file
extern "C" void mal_bytes(int n, int fixed) {
  std::string s((size_t)n, 'x');
  sx_symbolic(&s[0], (size_t)n, "byte");
  for (char c : s) sx_assume(c != 0);
  run_file(s, fixed != 0);
}
// a do-label of n digits
extern "C" void mal_label(int n) {
  std::string d = sx_str((size_t)n, "0189", "digit");
  run_file("do " + d + " i = 1, 2\n10 continue\nend\n");
  run_file(d + " continue\nend\n");
}
