// Program structure (P15) and malformed input (P16): statements whose tokens
// are symbolic (drawn from a table of statement kinds) inside fixed contexts,
// against a predictive recogniser of Fortran's construct nesting.
#include "edit_util.h"
#include "flpr/Parsed_File.hh"
#include "flpr/Prgm_Parsers.hh"
#include "flpr/Procedure.hh"
#include "flpr/Procedure_Visitor.hh"
using PF = Parsed_File<>;
using Bits = uint64_t;
enum Bit {
  ACT, ASGN, WHERE1, FORALL1, CONT, IMPX, DATA, DECL, PARAM, USE, IMPORT, IMPLICIT,
  IFTHEN, ELSEIF, ELSE, ENDIF, DO, LDO, ENDDO, SELCASE, CASE, SELTYPE, TGUARD, SELRANK, RCASE, ENDSEL,
  ASSOC, ENDASSOC, BLOCK, ENDBLOCK, WHEREC, MELSEW, ELSEW, ENDWHERE, FORALLC, ENDFORALL,
  TYPE, PRIVATE, SEQ, COMP, CONTAINS, BINDING, ENDTYPE, ENUM, ENUMERATOR, ENDENUM,
  INTERFACE, PROCSTMT, ENDINTERFACE, FUNC, ENDFUNC, SUB, ENDSUB, MPSUB, ENDPROC, MODULE, ENDMODULE,
  PROGRAM, ENDPROGRAM, END, FMT, NBITS
};
static_assert(NBITS <= 64);
static constexpr Bits B(Bit b) { return (Bits)1 << b; }
struct Kind {
  const char *text;
  Bits cls;
};
static const Kind KINDS[] = {
    {"x = 1", B(ACT) | B(ASGN)},
    {"x => y", B(ACT) | B(FORALL1)}, // a pointer assignment may appear in forall
    {"call s", B(ACT)},
    {"continue", B(ACT) | B(CONT)},
    {"if (a) x = 1", B(ACT)},
    {"where (m) x = 1", B(ACT) | B(WHERE1) | B(FORALL1)},
    {"forall (i=1:2) x = 1", B(ACT) | B(FORALL1)},
    {"return", B(ACT)},
    {"format (a)", B(IMPX) | B(FMT)},
    {"entry e", B(IMPX)},
    {"data x/1/", B(DATA)},
    {"integer :: i", B(DECL) | B(COMP)},
    {"procedure (f), pointer :: p", B(DECL) | B(COMP)},
    {"save", B(DECL)},
    {"parameter (x=1)", B(PARAM) | B(ACT)}, // or a macro,
    {"use m", B(USE)},
    {"import x", B(IMPORT)},
    {"implicit none", B(IMPLICIT)},
    {"if (a) then", B(IFTHEN)},
    {"else if (a) then", B(ELSEIF)},
    {"else", B(ELSE)},
    {"end if", B(ENDIF)},
    {"do", B(DO)},
    {"do while (a)", B(DO)},
    {"do i = 1, 3", B(DO)},
    {"do 10 i = 1, 3", B(LDO)},
    {"end do", B(ENDDO)},
    {"select case (a)", B(SELCASE)},
    {"case (a)", B(CASE)},
    {"case default", B(CASE)},
    {"select type (a)", B(SELTYPE)},
    {"class is (t)", B(TGUARD)},
    {"class default", B(TGUARD)},
    {"select rank (a)", B(SELRANK)},
    {"rank (1)", B(RCASE)},
    {"rank default", B(RCASE)},
    {"end select", B(ENDSEL)},
    {"associate (a => b)", B(ASSOC)},
    {"end associate", B(ENDASSOC)},
    {"block", B(BLOCK)},
    {"end block", B(ENDBLOCK)},
    {"where (m)", B(WHEREC)},
    {"else where (m)", B(MELSEW)},
    {"else where", B(ELSEW)},
    {"end where", B(ENDWHERE)},
    {"forall (i=1:2)", B(FORALLC)},
    {"end forall", B(ENDFORALL)},
    {"type t", B(TYPE)},
    {"private", B(PRIVATE) | B(DECL)},
    {"sequence", B(SEQ)},
    {"contains", B(CONTAINS)},
    {"procedure :: p", B(BINDING) | B(PROCSTMT)},
    {"generic :: g => p", B(BINDING) | B(DECL)},
    {"final :: p", B(BINDING)},
    {"end type", B(ENDTYPE)},
    {"enum, bind(c)", B(ENUM)},
    {"enumerator :: x", B(ENUMERATOR)},
    {"end enum", B(ENDENUM)},
    {"interface", B(INTERFACE)},
    {"abstract interface", B(INTERFACE)},
    {"end interface", B(ENDINTERFACE)},
    {"function f()", B(FUNC)},
    {"end function", B(ENDFUNC)},
    {"subroutine s", B(SUB)},
    {"end subroutine", B(ENDSUB)},
    {"module procedure p", B(MPSUB) | B(PROCSTMT)},
    {"end procedure", B(ENDPROC)},
    {"module m", B(MODULE)},
    {"end module", B(ENDMODULE)},
    {"program p", B(PROGRAM)},
    {"end program", B(ENDPROGRAM)},
    {"end", B(END)},
};
constexpr int NKINDS = sizeof KINDS / sizeof KINDS[0];
constexpr int MAXT = 14;
// the kinds of each length, as plain tables
struct Group {
  int n = 0;
  int tag[NKINDS * MAXT];
  Bits cls[NKINDS];
  int kind[NKINDS];
};
static Group G[MAXT + 1];
static std::vector<int> tags_of(const std::string &text) {
  Logical_Line l(Lines{"  " + text});
  std::vector<int> r;
  for (auto &t : l.fragments()) r.push_back(t.token);
  return r;
}
static void setup(Bits among) {
  for (auto &g : G) g.n = 0;
  for (int k = 0; k < NKINDS; k++) {
    if (!(KINDS[k].cls & among)) continue;
    std::vector<int> t = tags_of(KINDS[k].text);
    CHECK(!t.empty() && t.size() <= MAXT, "statement kind");
    Group &g = G[t.size()];
    for (size_t j = 0; j < t.size(); j++) g.tag[(size_t)g.n * t.size() + j] = t[j];
    g.cls[g.n] = KINDS[k].cls;
    g.kind[g.n] = k;
    g.n++;
  }
}
static Bits class_of_text(const std::string &s) {
  for (auto &k : KINDS)
    if (s == k.text) return k.cls;
  CHECK(false, "context statement");
  return 0;
}
// ---- the recogniser -------------------------------------------------------
struct Node {
  int tag, a, b;
  bool operator==(const Node &o) const { return tag == o.tag && a == o.a && b == o.b; }
};
// a procedure: where its parts begin (head, use, import, implicit and
// declarations, execution part, internal procedures, end statement, behind it)
struct View {
  int tag, cut[8];
  bool internal, module;
  int first_impl, last_impl, first_decl; // of the implicit statements / declarations
};
struct Ref {
  std::vector<Bits> cls;
  std::vector<int> lab, tgt; // statement label, target of a labelled do
  int n = 0, p = 0;
  bool bad = false, unspecified = false;
  std::vector<int> pending;
  std::vector<Node> out; // constructs in order of their ends
  std::vector<char> shared;
  std::vector<View> views; // the procedures, each before its internal ones
  int sp[5];
  bool in_proc = false, in_module = false;
  bool is(Bits b) { return !bad && p < n && (cls[(size_t)p] & b) != 0; }
  bool is(Bit b) { return is(B(b)); }
  bool take(Bits b) {
    if (is(b)) {
      p++;
      return true;
    }
    return false;
  }
  bool take(Bit b) { return take(B(b)); }
  void need(Bits b) {
    if (!take(b)) bad = true;
  }
  void leaf(Bit b, int tag) {
    int a = p;
    need(B(b));
    emit(tag, a);
  }
  bool leaf_of(Bits b) {
    bool f = is(FMT);
    if (!take(b)) return false;
    if (f) emit(Syntax_Tags::SG_FORMAT_STMT, p - 1);
    return true;
  }
  void emit(int tag, int a) {
    if (!bad && p > a) out.push_back({tag, a, p});
  }
#define T(x) Syntax_Tags::x
  bool target_here() { return p < n && !pending.empty() && lab[(size_t)p] == pending.back(); }
  void end_with(Bit own, int tag) {
    int a = p;
    need(B(own) | B(END));
    emit(tag, a);
  }
  bool construct() {
    if (bad || p >= n || target_here()) return false;
    int a = p;
    if (is(ACT) || (is(ASGN))) {
      p++;
      return true;
    }
    if (is(IFTHEN)) {
      leaf(IFTHEN, T(SG_IF_THEN_STMT));
      block();
      while (is(ELSEIF)) {
        leaf(ELSEIF, T(SG_ELSE_IF_STMT));
        block();
      }
      if (is(ELSEW)) unspecified = true; // "else where" may name the construct "where"
      if (is(ELSE)) {
        leaf(ELSE, T(SG_ELSE_STMT));
        block();
        if (is(ELSEW)) unspecified = true;
      }
      leaf(ENDIF, T(SG_END_IF_STMT));
      emit(T(PG_IF_CONSTRUCT), a);
    } else if (is(DO) || is(LDO)) {
      do_construct();
    } else if (is(SELCASE)) {
      leaf(SELCASE, T(SG_SELECT_CASE_STMT));
      while (is(CASE)) {
        leaf(CASE, T(SG_CASE_STMT));
        block();
      }
      leaf(ENDSEL, T(SG_END_SELECT_STMT));
      emit(T(PG_CASE_CONSTRUCT), a);
    } else if (is(SELTYPE)) {
      leaf(SELTYPE, T(SG_SELECT_TYPE_STMT));
      while (is(TGUARD)) {
        leaf(TGUARD, T(SG_TYPE_GUARD_STMT));
        block();
      }
      leaf(ENDSEL, T(SG_END_SELECT_TYPE_STMT));
      emit(T(PG_SELECT_TYPE_CONSTRUCT), a);
    } else if (is(SELRANK)) {
      leaf(SELRANK, T(SG_SELECT_RANK_STMT));
      while (is(RCASE)) {
        leaf(RCASE, T(SG_SELECT_RANK_CASE_STMT));
        block();
      }
      leaf(ENDSEL, T(SG_END_SELECT_RANK_STMT));
      emit(T(PG_SELECT_RANK_CONSTRUCT), a);
    } else if (is(ASSOC)) {
      leaf(ASSOC, T(SG_ASSOCIATE_STMT));
      block();
      leaf(ENDASSOC, T(SG_END_ASSOCIATE_STMT));
      emit(T(PG_ASSOCIATE_CONSTRUCT), a);
    } else if (is(BLOCK)) {
      leaf(BLOCK, T(SG_BLOCK_STMT));
      int s = p;
      while (take(USE)) {}
      while (take(IMPORT)) {}
      while (decl()) {}
      emit(T(PG_BLOCK_SPECIFICATION_PART), s);
      block();
      leaf(ENDBLOCK, T(SG_END_BLOCK_STMT));
      emit(T(PG_BLOCK_CONSTRUCT), a);
    } else if (is(WHEREC)) {
      where_construct();
    } else if (is(FORALLC)) {
      forall_construct();
    } else
      return false;
    return !bad;
  }
  void where_body() {
    for (;;) {
      if (take(B(ASGN) | B(WHERE1))) continue;
      if (is(WHEREC)) {
        where_construct();
        if (bad) return;
        continue;
      }
      return;
    }
  }
  void where_construct() {
    int a = p;
    leaf(WHEREC, T(SG_WHERE_CONSTRUCT_STMT));
    where_body();
    while (is(MELSEW)) {
      leaf(MELSEW, T(SG_MASKED_ELSEWHERE_STMT));
      where_body();
    }
    if (is(ELSEW)) {
      leaf(ELSEW, T(SG_ELSEWHERE_STMT));
      where_body();
    }
    leaf(ENDWHERE, T(SG_END_WHERE_STMT));
    emit(T(PG_WHERE_CONSTRUCT), a);
  }
  void forall_construct() {
    int a = p;
    leaf(FORALLC, T(SG_FORALL_CONSTRUCT_STMT));
    for (;;) {
      if (take(B(ASGN) | B(WHERE1) | B(FORALL1))) continue;
      if (is(WHEREC)) where_construct();
      else if (is(FORALLC)) forall_construct();
      else break;
      if (bad) return;
    }
    leaf(ENDFORALL, T(SG_END_FORALL_STMT));
    emit(T(PG_FORALL_CONSTRUCT), a);
  }
  void do_construct() {
    int a = p;
    bool labelled = is(LDO);
    int t = tgt[(size_t)p];
    p++;
    emit(T(SG_DO_STMT), a);
    if (labelled) pending.push_back(t);
    int s = p;
    exec_list();
    if (bad || p >= n) {
      bad = true;
      return;
    }
    if (!labelled) {
      emit(T(PG_BLOCK), s);
      if (target_here()) bad = true;
      leaf(ENDDO, T(SG_END_DO_STMT));
      emit(T(PG_DO_CONSTRUCT), a);
      return;
    }
    if (lab[(size_t)p] != t) {
      bad = true;
      return;
    }
    size_t same = 0; // loops that share this end
    while (same < pending.size() && pending[pending.size() - 1 - same] == t) same++;
    bool outer_shares = same > 1, inner_shared = p < n && shared[(size_t)p];
    if (outer_shares || inner_shared) {
      if (inner_shared) out.push_back({T(PG_DO_BODY), s, p + 1}); // the inner loop has the end, too
      else emit(T(PG_DO_BODY), s);
      if (!is(ACT)) {
        bad = true;
        return;
      }
      shared[(size_t)p] = 1;
      p++;
      emit(T(PG_DO_TERM_SHARED_STMT), p - 1);
      emit(outer_shares ? T(PG_INNER_SHARED_DO_CONSTRUCT) : T(PG_OUTER_SHARED_DO_CONSTRUCT), a);
      emit(T(PG_NONBLOCK_DO_CONSTRUCT), a);
      if (outer_shares) p--;
    } else if (is(B(ENDDO) | B(CONT))) {
      emit(T(PG_BLOCK), s);
      p++;
      emit(T(PG_DO_CONSTRUCT), a);
    } else if (is(ACT)) {
      emit(T(PG_DO_BODY), s);
      p++;
      emit(T(PG_DO_TERM_ACTION_STMT), p - 1);
      emit(T(PG_ACTION_TERM_DO_CONSTRUCT), a);
      emit(T(PG_NONBLOCK_DO_CONSTRUCT), a);
    } else {
      bad = true;
      return;
    }
    pending.pop_back();
  }
  bool exec_part_construct() {
    if (construct()) return true;
    if (bad) return false;
    return leaf_of(B(IMPX) | B(DATA));
  }
  void exec_list() {
    while (exec_part_construct()) {}
  }
  void block() {
    int a = p;
    exec_list();
    emit(T(PG_BLOCK), a);
  }
  bool decl() {
    int a = p;
    if (bad || p >= n) return false;
    if (is(TYPE)) {
      leaf(TYPE, T(SG_DERIVED_TYPE_STMT));
      while (take(B(PRIVATE) | B(SEQ))) {}
      int s = p;
      while (take(COMP)) {}
      emit(T(PG_COMPONENT_PART), s);
      s = p;
      if (take(CONTAINS)) {
        take(PRIVATE);
        while (take(BINDING)) {}
        emit(T(PG_TYPE_BOUND_PROCEDURE_PART), s);
      }
      leaf(ENDTYPE, T(SG_END_TYPE_STMT));
      emit(T(PG_DERIVED_TYPE_DEF), a);
      return !bad;
    }
    if (is(ENUM)) {
      leaf(ENUM, T(SG_ENUM_DEF_STMT));
      need(B(ENUMERATOR));
      while (take(ENUMERATOR)) {}
      leaf(ENDENUM, T(SG_END_ENUM_STMT));
      emit(T(PG_ENUM_DEF), a);
      return !bad;
    }
    if (is(INTERFACE)) {
      leaf(INTERFACE, T(SG_INTERFACE_STMT));
      while (!bad) {
        int s = p;
        if (is(FUNC)) {
          leaf(FUNC, T(SG_FUNCTION_STMT));
          spec();
          end_with(ENDFUNC, T(SG_END_FUNCTION_STMT));
          emit(T(PG_INTERFACE_BODY), s);
        } else if (is(SUB)) {
          leaf(SUB, T(SG_SUBROUTINE_STMT));
          spec();
          end_with(ENDSUB, T(SG_END_SUBROUTINE_STMT));
          emit(T(PG_INTERFACE_BODY), s);
        } else if (!take(PROCSTMT))
          break;
      }
      leaf(ENDINTERFACE, T(SG_END_INTERFACE_STMT));
      emit(T(PG_INTERFACE_BLOCK), a);
      return !bad;
    }
    return leaf_of(B(DECL) | B(PARAM) | B(IMPX) | B(DATA));
  }
  void spec() {
    int a = p;
    while (take(USE)) {}
    int u = p;
    while (take(IMPORT)) {}
    int i = p, l = -1;
    while (is(B(IMPLICIT) | B(PARAM) | B(IMPX))) {
      if (is(IMPLICIT)) l = p;
      leaf_of(B(IMPLICIT) | B(PARAM) | B(IMPX));
    }
    int d = p;
    while (decl()) {}
    emit(T(PG_SPECIFICATION_PART), a);
    sp[0] = a, sp[1] = u, sp[2] = i, sp[3] = l, sp[4] = d;
  }
  void exec() {
    int a = p;
    if (!construct()) return;
    exec_list();
    emit(T(PG_EXECUTION_PART), a);
  }
  void internal(int tag) {
    int a = p;
    if (!take(CONTAINS)) return;
    while (subprogram(tag == T(PG_MODULE_SUBPROGRAM_PART))) {}
    emit(tag, a);
  }
  bool subprogram(bool separate) {
    int a = p;
    if (is(FUNC)) {
      leaf(FUNC, T(SG_FUNCTION_STMT));
      body(a, T(PG_FUNCTION_SUBPROGRAM));
      end_with(ENDFUNC, T(SG_END_FUNCTION_STMT));
      emit(T(PG_FUNCTION_SUBPROGRAM), a);
    } else if (is(SUB)) {
      leaf(SUB, T(SG_SUBROUTINE_STMT));
      body(a, T(PG_SUBROUTINE_SUBPROGRAM));
      end_with(ENDSUB, T(SG_END_SUBROUTINE_STMT));
      emit(T(PG_SUBROUTINE_SUBPROGRAM), a);
    } else if (separate && is(MPSUB)) {
      leaf(MPSUB, T(SG_MP_SUBPROGRAM_STMT));
      body(a, T(PG_SEPARATE_MODULE_SUBPROGRAM));
      end_with(ENDPROC, T(SG_END_MP_SUBPROGRAM_STMT));
      emit(T(PG_SEPARATE_MODULE_SUBPROGRAM), a);
    } else
      return false;
    return !bad;
  }
  void body(int a, int tag) {
    size_t v = views.size();
    views.push_back({tag, {a, p}, in_proc, in_module, 0, 0, 0});
    spec();
    int c[8] = {a, sp[0], sp[1], sp[2], p};
    views[v].last_impl = sp[3];
    views[v].first_decl = sp[4];
    exec();
    c[5] = p;
    bool was = in_proc;
    in_proc = true;
    internal(T(PG_INTERNAL_SUBPROGRAM_PART));
    in_proc = was;
    c[6] = p;
    c[7] = p + 1;
    for (int k = 0; k < 8; k++) views[v].cut[k] = c[k];
  }
  void unit() {
    int a = p;
    if (subprogram(false) || bad) {
    } else if (is(MODULE)) {
      leaf(MODULE, T(SG_MODULE_STMT));
      spec();
      in_module = true;
      internal(T(PG_MODULE_SUBPROGRAM_PART));
      in_module = false;
      end_with(ENDMODULE, T(SG_END_MODULE_STMT));
      emit(T(PG_MODULE), a);
    } else {
      if (is(PROGRAM)) leaf(PROGRAM, T(SG_PROGRAM_STMT));
      body(a, T(PG_MAIN_PROGRAM));
      end_with(ENDPROGRAM, T(SG_END_PROGRAM_STMT));
      emit(T(PG_MAIN_PROGRAM), a);
    }
  }
  bool run() {
    n = (int)cls.size();
    shared.assign((size_t)n, 0);
    while (!bad && p < n) unit();
    return !bad;
  }
};
static bool reported(int tag) {
  switch (tag) {
#define R(x) case Syntax_Tags::x:
  R(SG_IF_THEN_STMT) R(SG_ELSE_IF_STMT) R(SG_ELSE_STMT) R(SG_END_IF_STMT) R(PG_IF_CONSTRUCT) R(SG_SELECT_CASE_STMT)
  R(SG_CASE_STMT) R(SG_END_SELECT_STMT) R(PG_CASE_CONSTRUCT) R(SG_SELECT_TYPE_STMT) R(SG_TYPE_GUARD_STMT)
  R(SG_END_SELECT_TYPE_STMT) R(PG_SELECT_TYPE_CONSTRUCT) R(SG_SELECT_RANK_STMT) R(SG_SELECT_RANK_CASE_STMT)
  R(SG_END_SELECT_RANK_STMT) R(PG_SELECT_RANK_CONSTRUCT) R(SG_ASSOCIATE_STMT) R(SG_END_ASSOCIATE_STMT)
  R(PG_ASSOCIATE_CONSTRUCT) R(SG_BLOCK_STMT) R(PG_BLOCK_SPECIFICATION_PART) R(SG_END_BLOCK_STMT) R(PG_BLOCK_CONSTRUCT)
  R(SG_WHERE_CONSTRUCT_STMT) R(SG_MASKED_ELSEWHERE_STMT) R(SG_ELSEWHERE_STMT) R(SG_END_WHERE_STMT)
  R(PG_WHERE_CONSTRUCT) R(SG_FORALL_CONSTRUCT_STMT) R(SG_END_FORALL_STMT) R(PG_FORALL_CONSTRUCT) R(SG_DO_STMT)
  R(PG_BLOCK) R(SG_END_DO_STMT) R(PG_DO_CONSTRUCT) R(PG_DO_BODY) R(PG_DO_TERM_SHARED_STMT)
  R(PG_INNER_SHARED_DO_CONSTRUCT) R(PG_OUTER_SHARED_DO_CONSTRUCT) R(PG_NONBLOCK_DO_CONSTRUCT)
  R(PG_DO_TERM_ACTION_STMT) R(PG_ACTION_TERM_DO_CONSTRUCT) R(SG_DERIVED_TYPE_STMT) R(PG_COMPONENT_PART)
  R(PG_TYPE_BOUND_PROCEDURE_PART) R(SG_END_TYPE_STMT) R(PG_DERIVED_TYPE_DEF) R(SG_ENUM_DEF_STMT) R(SG_END_ENUM_STMT)
  R(PG_ENUM_DEF) R(SG_INTERFACE_STMT) R(SG_FUNCTION_STMT) R(SG_END_FUNCTION_STMT) R(PG_INTERFACE_BODY)
  R(SG_SUBROUTINE_STMT) R(SG_END_SUBROUTINE_STMT) R(SG_END_INTERFACE_STMT) R(PG_INTERFACE_BLOCK)
  R(PG_SPECIFICATION_PART) R(PG_EXECUTION_PART) R(PG_MODULE_SUBPROGRAM_PART) R(PG_INTERNAL_SUBPROGRAM_PART)
  R(PG_FUNCTION_SUBPROGRAM) R(PG_SUBROUTINE_SUBPROGRAM) R(SG_MP_SUBPROGRAM_STMT) R(SG_END_MP_SUBPROGRAM_STMT)
  R(PG_SEPARATE_MODULE_SUBPROGRAM) R(SG_MODULE_STMT) R(SG_END_MODULE_STMT) R(PG_MODULE) R(SG_PROGRAM_STMT)
  R(SG_END_PROGRAM_STMT) R(PG_MAIN_PROGRAM) R(SG_FORMAT_STMT)
#undef R
    return true;
  }
  return false;
}
// ---- the tree that was built ----------------------------------------------
static std::vector<const LL_Stmt *> STM;
static int index_of(LL_STMT_SEQ::iterator it) {
  const LL_Stmt *p = &*it;
  for (size_t i = 0; i < STM.size(); i++)
    if (STM[i] == p) return (int)i;
  return (int)STM.size(); // the end
}
static void visit(PF::Parse_Tree::node &n, std::vector<int> &leaves, std::vector<Node> &got) {
  size_t first = leaves.size();
  if (n.is_leaf() && n->is_stmt()) {
    int i = index_of(n->ll_stmt_iter());
    leaves.push_back(i);
    CHECK(&n->ll_stmt() == STM[(size_t)i], "statement of a leaf");
    CHECK(!n->stmt_tree().empty(), "a statement has its own tree");
  }
  for (auto &b : n.branches()) visit(b, leaves, got);
  CHECK(!n->is_stmt() || n.is_leaf(), "a statement is a leaf");
  if (leaves.size() == first) {
    CHECK(n->stmt_range().size() == 0, "statements of an empty part");
    return;
  }
  auto &r = n->stmt_range();
  int a = index_of(r.begin()), b = index_of(r.end());
  CHECK(a == leaves[first], "first statement of a node");
  CHECK(b == leaves.back() + 1, "last statement of a node");
  CHECK((int)r.size() == b - a, "number of statements of a node");
  if (reported(n->syntag())) got.push_back({n->syntag(), a, b});
}
static void check_tree(PF &f, Ref &ref) {
  std::vector<int> leaves;
  std::vector<Node> got;
  auto &t = f.parse_tree();
  t.check();
  visit(*t, leaves, got);
  int next = 0;
  for (int i : leaves) {
    if (i == next) next++;
    else CHECK(i == next - 1 && ref.shared[(size_t)i], "every statement appears once, in order");
  }
  CHECK(next == ref.n, "every statement is in the tree");
  CHECK(got.size() == ref.out.size(), "constructs of the program");
  for (size_t i = 0; i < got.size(); i++) CHECK(got[i] == ref.out[i], "extent and kind of a construct");
  for (auto it = f.statements().begin(); it != f.statements().end(); ++it) {
    auto c = f.stmt_to_node_cursor(it);
    CHECK(bool(c), "a statement leads to its node");
    CHECK(c->is_stmt() && &c->ll_stmt() == &*it, "the node of a statement");
  }
}
// ---- the procedures (P17) ---------------------------------------------------
using Proc = Procedure<PF>;
using FLPR::Procedure_Visitor;
static void check_region(Proc &p, Proc::Region_Tag tag, int a, int b) {
  CHECK(p.has_region(tag) == (a < b), "a part of a procedure is there or not");
  auto c = p.crange(tag);
  CHECK((int)c.size() == b - a, "number of statements in a part of a procedure");
  int k = a;
  for (auto const &s : c) {
    CHECK(&s == STM[(size_t)k], "statement in a part of a procedure");
    k++;
  }
  if (a == b) return;
  CHECK(&*p.cbegin(tag) == STM[(size_t)a] && &*p.clast(tag) == STM[(size_t)b - 1], "first and last statement of a part");
  auto r = p.range(tag);
  CHECK((int)r.size() == b - a && index_of(r.begin()) == a && index_of(r.end()) == b, "range of a part");
  CHECK(index_of(p.begin(tag)) == a && index_of(p.last(tag)) == b - 1 && index_of(p.end(tag)) == b, "iterators of a part");
  CHECK(p.begin(tag).get_region() == tag && p.end(tag).get_region() == tag, "the part of an iterator");
}
static void check_view(PF &f, PF::Prgm_Cursor c, const View &v, const Ref &ref) {
  Proc p(f);
  CHECK(!p.procedure_initialized(), "a new procedure is blank");
  CHECK(p.ingest(c), "a procedure is taken in");
  CHECK(p.procedure_initialized(), "a procedure is ready");
  CHECK(p.is_main_program() == (v.tag == T(PG_MAIN_PROGRAM)), "main program");
  CHECK(p.headless_main_program() == (v.cut[0] == v.cut[1]), "main program without program statement");
  std::string name = p.name();
  if (v.cut[0] == v.cut[1]) CHECK(name.empty(), "name of a main program without one");
  else CHECK(name.size() == 1 || name == "11" || name == "10", "name");
  check_region(p, Proc::PROC_BEGIN, v.cut[0], v.cut[1]);
  check_region(p, Proc::USES, v.cut[1], v.cut[2]);
  check_region(p, Proc::IMPORTS, v.cut[2], v.cut[3]);
  check_region(p, Proc::EXECUTION_PART, v.cut[4], v.cut[5]);
  check_region(p, Proc::CONTAINED, v.cut[5], v.cut[6]);
  check_region(p, Proc::PROC_END, v.cut[6], v.cut[7]);
  // implicit part and declarations share the rest between them
  int m = v.cut[3] + (int)p.crange(Proc::IMPLICITS).size();
  CHECK(m >= v.cut[3] && m <= v.cut[4], "extent of the implicit part");
  CHECK(v.last_impl < m, "the implicit part has every implicit statement");
  CHECK(v.first_decl >= m, "the implicit part has no declaration");
  check_region(p, Proc::IMPLICITS, v.cut[3], m);
  check_region(p, Proc::DECLS, m, v.cut[4]);
  std::vector<int> labels, want;
  p.scan_out_labels(std::back_inserter(labels));
  for (int i = v.cut[0]; i < v.cut[7]; i++)
    if (ref.lab[(size_t)i]) want.push_back(ref.lab[(size_t)i]);
  CHECK(labels.size() == want.size(), "number of labels of a procedure");
  for (size_t i = 0; i < want.size(); i++) CHECK(labels[i] == want[i], "labels of a procedure");
  p.clear();
  CHECK(!p.procedure_initialized(), "a cleared procedure is blank");
  CHECK(p.ingest(c) && p.procedure_initialized(), "a procedure is taken in again");
  check_region(p, Proc::EXECUTION_PART, v.cut[4], v.cut[5]);
}
struct Collect {
  Ref &ref;
  size_t n = 0, answer;
  bool operator()(PF &f, PF::Prgm_Cursor c, bool internal, bool module) {
    CHECK(n < ref.views.size(), "a procedure too many is visited");
    const View &v = ref.views[n++];
    CHECK(c->syntag() == v.tag, "kind of the procedure visited");
    auto &r = c->stmt_range();
    CHECK(index_of(r.begin()) == v.cut[0] && index_of(r.end()) == v.cut[7], "extent of the procedure visited");
    CHECK(internal == v.internal, "an internal procedure is visited as such");
    CHECK(module == v.module, "a module procedure is visited as such");
    check_view(f, c, v, ref);
    return n - 1 == answer;
  }
};
static void check_views(PF &f, Ref &ref) {
  size_t answer = sx_choose((int)ref.views.size() + 1, "changed");
  Collect c{ref, 0, answer};
  Procedure_Visitor<PF, Collect> v(f, c);
  bool got = v.visit();
  CHECK(c.n == ref.views.size(), "every procedure is visited");
  CHECK(got == (answer < ref.views.size()), "the visit reports a change");
}
// ---- files with symbolic statements ---------------------------------------
struct File {
  std::vector<std::string> lines;
  std::vector<int> len;      // tokens of a symbolic statement, 0: fixed
  std::vector<unsigned char> k;
  std::vector<int> lab, tgt;
  std::vector<Bits> cls;
};
static void fixed(File &f, const Lines &l) {
  for (auto &s : l) {
    int lab = 0;
    size_t p = 0;
    while (p < s.size() && s[p] >= '0' && s[p] <= '9') lab = lab * 10 + (s[p++] - '0');
    while (p < s.size() && s[p] == ' ') p++;
    f.lines.push_back(s);
    f.len.push_back(0);
    f.k.push_back(0);
    f.lab.push_back(lab);
    f.tgt.push_back(s.compare(p, 4, "do 1") == 0 ? 10 + (s[p + 4] - '0') : 0);
    f.cls.push_back(class_of_text(f.tgt.back() ? "do 10 i = 1, 3" : s.substr(p)));
  }
}
static void slot(File &f, bool labels) {
  unsigned len;
  unsigned char pick = (unsigned char)(1 + sx_choose(MAXT, "tokens"));
  len = pick;
  Group &g = G[len];
  sx_assume(g.n > 0);
  unsigned char k;
  sx_symbolic(&k, 1, "kind");
  sx_assume(k < g.n);
  std::string s;
  int lab = 0;
  char d = '0';
  if (labels) {
    if (sx_choose(2, "labelled")) {
      char c = sx_char("01", 2, "label");
      s = std::string("1") + c;
      lab = 10 + (c - '0');
    }
    d = sx_char("01", 2, "target");
  }
  s += " z";
  for (unsigned i = 1; i < len; i++) s += std::string(" 1") + d;
  f.lines.push_back(s);
  f.len.push_back((int)len);
  f.k.push_back(k);
  f.lab.push_back(lab);
  f.tgt.push_back(10 + (d - '0'));
  f.cls.push_back(g.cls[k]);
}
static void judge(File &fl, bool labels, bool views = false) {
  std::string text;
  for (auto &s : fl.lines) text += s + "\n";
  SxIn in(text);
  PF f(in.is(), "t.f90", 0, File_Type::FREEFMT);
  CHECK(bool(f), "the file is read");
  size_t i = 0;
  for (auto &l : f.logical_lines()) {
    CHECK(i < fl.len.size(), "lines of the file");
    if (fl.len[i]) {
      CHECK((int)l.fragments().size() == fl.len[i], "tokens of a line");
      Group &g = G[fl.len[i]];
      unsigned j = 0;
      for (auto &t : l.fragments()) t.token = g.tag[(unsigned)fl.k[i] * (unsigned)fl.len[i] + j++];
    }
    i++;
  }
  CHECK(i == fl.len.size(), "lines of the file");
  STM.clear();
  for (auto &s : f.statements()) STM.push_back(&s);
  CHECK(STM.size() == fl.len.size(), "statements of the file");
  f.parse_tree();
  Ref ref;
  ref.cls = fl.cls;
  ref.lab = fl.lab;
  ref.tgt = fl.tgt;
  bool ok = ref.run();
  if (ref.unspecified) return;
  if (ok) {
    CHECK(bool(f), "a well-formed program is accepted");
    sx_cover("accepted");
    if (views) check_views(f, ref);
    else check_tree(f, ref);
  } else {
    CHECK(!f, "an ill-formed program is rejected");
    CHECK(f.parse_tree().empty(), "no tree for a rejected program");
    CHECK(f.statements().size() == STM.size(), "statements of a rejected program");
    sx_cover("rejected");
  }
}
struct Ctx {
  Lines before, after;
};
static Ctx context(int c) {
  switch (c) {
  case 0: return {{}, {}};
  case 1: return {{"subroutine s"}, {"end subroutine"}};
  case 2: return {{"program p", "if (a) then"}, {"end if", "end program"}};
  case 3: return {{"if (a) then", "x = 1", "else"}, {"end if", "end"}};
  case 4: return {{"do i = 1, 3"}, {"end do", "end program"}};
  case 5: return {{"select case (a)", "case (a)"}, {"end select", "end program"}};
  case 6: return {{"select type (a)", "class is (t)"}, {"end select", "end program"}};
  case 7: return {{"select rank (a)"}, {"end select", "end program"}};
  case 8: return {{"module m"}, {"end module"}};
  case 9: return {{"module m", "type t"}, {"end type", "end module"}};
  case 10: return {{"module m", "type t", "contains"}, {"end type", "end module"}};
  case 11: return {{"module m", "interface"}, {"end interface", "end module"}};
  case 12: return {{"module m", "contains"}, {"end module"}};
  case 13: return {{"function f()", "x = 1", "contains"}, {"end function"}};
  case 14: return {{"where (m)"}, {"end where", "end program"}};
  case 15: return {{"forall (i=1:2)"}, {"end forall", "end program"}};
  case 16: return {{"block"}, {"end block", "end program"}};
  case 17: return {{"associate (a => b)"}, {"end associate", "end program"}};
  case 18: return {{"module m", "enum, bind(c)"}, {"end enum", "end module"}};
  case 19: return {{"module m", "interface", "subroutine s"}, {"end subroutine", "end interface", "end module"}};
  case 20: return {{"do 10 i = 1, 3"}, {"end program"}};
  case 21: return {{"do 10 i = 1, 3"}, {"10 continue", "end program"}};
  case 22: return {{"do 10 i = 1, 3", "do 11 i = 1, 3"}, {"10 x = 1", "end program"}};
  case 23: return {{"do 10 i = 1, 3", "do 10 i = 1, 3"}, {"end program"}};
  case 24: return {{"subroutine s"}, {"end subroutine", "program p", "x = 1", "end"}};
  case 25: return {{"subroutine s", "if (a) then"}, {}}; // a truncated file
  case 26: return {{"module m", "type t"}, {}};
  case 27: return {{"program p", "do 10 i = 1, 3"}, {}};
  case 28: return {{"module m", "interface"}, {}};
  default: return {{"where (m)", "x = 1", "else where (m)"}, {"end where", "end program"}};
  }
}
// n symbolic statements among all kinds in context c
extern "C" void prgm_tree(int c, int n) {
  setup(~(Bits)0);
  Ctx x = context(c);
  File f;
  fixed(f, x.before);
  for (int i = 0; i < n; i++) slot(f, false);
  fixed(f, x.after);
  judge(f, false);
}
// labelled loops: n statements among do, end do, continue, assignment, if
extern "C" void prgm_labels(int c, int n) {
  setup(B(LDO) | B(DO) | B(ENDDO) | B(ACT) | B(IFTHEN) | B(ENDIF));
  Ctx x = context(c);
  File f;
  fixed(f, x.before);
  for (int i = 0; i < n; i++) slot(f, true);
  fixed(f, x.after);
  judge(f, true);
}
// deeper nesting among fewer kinds
extern "C" void prgm_nest(int set, int c, int n) {
  static const Bits S[] = {
      B(ASGN) | B(IFTHEN) | B(ELSE) | B(ENDIF) | B(DO) | B(ENDDO),
      B(ASGN) | B(SELCASE) | B(CASE) | B(SELTYPE) | B(TGUARD) | B(RCASE) | B(ENDSEL),
      B(ASGN) | B(WHEREC) | B(MELSEW) | B(ELSEW) | B(ENDWHERE) | B(FORALLC) | B(ENDFORALL),
      B(SUB) | B(ENDSUB) | B(FUNC) | B(CONTAINS) | B(END) | B(MPSUB) | B(MODULE) | B(ENDMODULE),
      B(TYPE) | B(PRIVATE) | B(SEQ) | B(COMP) | B(CONTAINS) | B(BINDING) | B(ENDTYPE),
      B(INTERFACE) | B(PROCSTMT) | B(ENDINTERFACE) | B(SUB) | B(ENDSUB) | B(END) | B(COMP),
      B(USE) | B(IMPORT) | B(IMPLICIT) | B(IMPX) | B(PARAM) | B(DECL) | B(DATA) | B(ASGN),
      B(BLOCK) | B(ENDBLOCK) | B(USE) | B(DECL) | B(ASSOC) | B(ENDASSOC) | B(IMPX),
  };
  setup(S[set]);
  Ctx x = context(c);
  File f;
  fixed(f, x.before);
  for (int i = 0; i < n; i++) slot(f, false);
  fixed(f, x.after);
  judge(f, false);
}
// the procedures of a file, in several frames
extern "C" void prgm_views(int frame, int n) {
  setup(B(USE) | B(IMPORT) | B(IMPLICIT) | B(DECL) | B(PARAM) | B(IMPX) | B(ASGN) | B(CONTAINS) | B(SUB) | B(FUNC) | B(ENDSUB) | B(ENDFUNC) | B(END) | B(MPSUB) | B(ENDPROC) | B(MODULE) | B(ENDMODULE) | B(PROGRAM) | B(ENDPROGRAM) | B(INTERFACE) | B(ENDINTERFACE) | B(IFTHEN) | B(ENDIF));
  static const Lines BEFORE[] = {
      {}, {"subroutine s"}, {"program p"}, {"x = 1"}, {"module m", "contains"}, {"module m", "integer :: i", "contains", "module procedure p"},
      {"function f()", "x = 1", "contains"}, {"module m", "contains", "subroutine s", "contains"}, {"subroutine s", "interface", "subroutine s", "end"}, {"module m", "interface"},
      {"subroutine s", "10 x = 1", "end", "module m", "contains", "subroutine s", "11 x = 1", "end"}, {"program p", "use m", "import x", "implicit none"}, {"use m", "integer :: i"},
      {"module m", "contains", "function f()", "x = 1", "contains", "subroutine s", "end"}, {"x = 1", "contains", "subroutine s", "end"}, {"subroutine s", "contains", "function f()", "end"}};
  static const Lines AFTER[] = {
      {}, {"end"}, {"end"}, {"end program"}, {"end module"}, {"x = 1", "end procedure", "end module"},
      {"end"}, {"end", "end module"}, {"end interface", "x = 1", "end"}, {"end interface", "contains", "function f()", "x = 1", "end", "end"},
      {"end", "program p", "10 continue", "contains", "subroutine s", "end", "end"}, {"end program"}, {"call s", "end"},
      {"subroutine s", "end", "end", "module procedure p", "end procedure", "end module"}, {"function f()", "end function", "end"}, {"subroutine s", "end subroutine", "end", "x = 1", "contains", "subroutine s", "end", "end program"}};
  File f;
  fixed(f, BEFORE[frame]);
  for (int i = 0; i < n; i++) slot(f, false);
  fixed(f, AFTER[frame]);
  judge(f, false, true);
}
