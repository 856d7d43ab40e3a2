// Reference grammar of the statements (Fortran 2018, with FLPR's documented
// simplification that expressions and i/o control lists are only checked for
// balanced parentheses), an enumerator of its sentences and a recogniser.
//
// right-hand sides:  word      that token          <r>   the rule r
//                    {a|b}     alternatives        {a}?  optional
//                    {a}*      any number          @r    r [, r]...
//   N a name, L a one-letter name, C the name "c", I an integer, LBL a label,
//   ~x an alternative that is not promised but may be accepted
//   E an expression, P a parenthesised list of anything, S a character literal
#pragma once
#include "sx.h"
#include "flpr/Logical_Line.hh"
#include "flpr/Syntax_Tags.hh"
#include <map>
using namespace FLPR;
struct GRule {
  int tag;
  const char *name, *rhs;
};
#define T(x) Syntax_Tags::SG_##x
static const GRule GRULES[] = {
    // ---- data references and expressions
    {T(SECTION_SUBSCRIPT), "ss", "{E|{E}? : {E}?|{E}? : {E}? : E}"},
    {T(SECTION_SUBSCRIPT_LIST), "sslist", "@ss"},
    {T(IMAGE_SELECTOR_SPEC), "imgspec", "{stat = <var>|team = E|team_number = E}"},
    {T(IMAGE_SELECTOR), "img", "[ @E { , @imgspec}? ]"},
    {T(PART_REF), "part", "N { ( <sslist> )}? {<img>}?"},
    {0, "srange", "{E}? : {E}?"},
    {0, "desig", "<part> { % <part>}* { ( <srange> )}?"},
    {0, "sc", "<part> % {<part> %}* N {<img>}?"},
    {0, "altret", "* LBL"},
    {T(ACTUAL_ARG_SPEC), "argspec", "{N =}? E"},
    {T(ACTUAL_ARG_SPEC_LIST), "arglist", "@argspec"},
    {T(ACTUAL_ARG_SPEC), "cargspec", "{{N =}? E|<altret>}"},
    {T(ACTUAL_ARG_SPEC_LIST), "carglist", "@cargspec"},
    {T(PROCEDURE_DESIGNATOR), "pdesig", "{<part> %}* N"},
    {0, "fref", "<pdesig> ( {<arglist>}? )"},
    {T(VARIABLE), "var", "{<desig>|<fref>}"},
    {0, "elem", "{N|<desig>}"},
    // ---- types
    {T(KIND_SELECTOR), "kindsel", "{( {kind =}? E )|* I}"},
    {T(TYPE_PARAM_VALUE), "tpv", "{E|*|:}"},
    {T(CHAR_LENGTH), "charlen", "{I|( <tpv> )|N}"},
    {0, "lensel", "{( {len =}? <tpv> )|* <charlen>}"},
    {T(CHAR_SELECTOR), "charsel", "{<lensel>|( len = <tpv> , kind = E )|( <tpv> , {kind =}? E )|( kind = E { , len = <tpv>}? )}"},
    {T(INTEGER_TYPE_SPEC), "inttype", "integer {<kindsel>}?"},
    {T(INTRINSIC_TYPE_SPEC), "itype", "{<inttype>|real {<kindsel>}?|complex {<kindsel>}?|logical {<kindsel>}?|double precision|doubleprecision|character {<charsel>}?}"},
    {T(TYPE_PARAM_SPEC), "tps", "{N =}? <tpv>"},
    {T(DERIVED_TYPE_SPEC), "dtype", "N { ( @tps )}?"},
    {T(DECLARATION_TYPE_SPEC), "dts", "{<itype>|type ( <itype> )|type ( <dtype> )|class ( <dtype> )|class ( * )|type ( * )}"},
    {T(TYPE_SPEC), "tspec", "{<itype>|<dtype>}"},
    // ---- shapes
    {0, "expl", "{E :}? E"},
    {0, "ash", "{E}? :"},
    {0, "ais", "{E :}? *"},
    {T(ARRAY_SPEC), "shape", "{@expl|@ash|@expl , <ais>|@ais|..}"},
    {0, "colon", ":"},
    {T(COARRAY_SPEC), "coshape", "{@colon|{@expl ,}? {E :}? *}"},
    // ---- attributes
    {T(ACCESS_SPEC), "access", "{public|private}"},
    {T(INTENT_SPEC), "intent", "{in|out|inout|in out}"},
    {T(LANGUAGE_BINDING_SPEC), "lbs", "bind ( C { , name = E}? )"},
    {T(ATTR_SPEC), "attr", "{allocatable|<access>|asynchronous|codimension [ <coshape> ]|contiguous|dimension ( <shape> )|external|intent ( <intent> )|intrinsic|<lbs>|optional|parameter|pointer|protected|save|target|value|volatile}"},
    {0, "init", "{= E|=> E}"},
    {T(ENTITY_DECL), "entity", "N { ( <shape> )}? {[ <coshape> ]}? {* <charlen>}? {<init>}?"},
    {T(ENTITY_DECL_LIST), "entities", "@entity"},
    // ---- generic specifications
    {0, "dop", "{.a.|**|*|/|+|-|//|<|<=|>|>=|==|/=|.not.|.and.|.or.|.eqv.|.neqv.}"},
    {0, "dio", "{read ( formatted )|read ( unformatted )|write ( formatted )|write ( unformatted )}"},
    {T(GENERIC_SPEC), "gspec", "{N|operator ( <dop> )|assignment ( = )|<dio>}"},
    {T(RENAME), "rename", "{N => N|operator ( .a. ) => operator ( .a. )}"},
    {T(ONLY), "only", "{N|<rename>|<gspec>}"},
    // ---- loops
    {T(CONCURRENT_CONTROL), "cctl", "N = E : E {: E}?"},
    {T(CONCURRENT_HEADER), "chead", "( {<inttype> ::}? @cctl { , E}? )"},
    {T(LOCALITY_SPEC), "local", "{local ( @N )|local_init ( @N )|shared ( @N )|default ( none )}"},
    {T(LOOP_CONTROL), "loop", "{,}? {N = E , E { , E}?|while ( E )|concurrent <chead> {<local>}*}"},
    {T(SYNC_STAT), "sstat", "{stat = <var>|errmsg = <var>}"},
    // ---- i/o
    {0, "iocontrol", "<var> = E , E { , E}?"},
    {T(IO_IMPLIED_DO), "iodo", "( @ioobj , <iocontrol> )"},
    {T(IO_IMPLIED_DO), "iniodo", "( @inobj , <iocontrol> )"},
    {0, "inobj", "{<var>|<iniodo>}"},
    {0, "ioobj", "{<var>|E|<iodo>}"},
    {T(INPUT_ITEM), "inp", "{<var>|<iniodo>|~<iodo>}"},
    {T(OUTPUT_ITEM), "outp", "{E|<iodo>}"},
    {T(FORMAT), "format", "{*|E}"},
    // ---- definitions
    {0, "prefixspec", "{elemental|impure|module|non_recursive|pure|recursive|<dts>}"},
    {0, "suffix", "{result ( N ) {<lbs>}?|<lbs> {result ( N )}?}"},
    {0, "dumarg", "{N|*}"},
    {0, "pinit", "{N|N ( )}"},
    {T(PROC_DECL), "procdecl", "N {=> <pinit>}?"},
    {T(PROC_INTERFACE), "piface", "{N|<dts>}"},
    {T(PROC_ATTR_SPEC), "pattr", "{pointer|<access>|<lbs>|intent ( <intent> )|optional|protected|save}"},
    {0, "pcattr", "{pointer|<access>|nopass|pass { ( N )}?}"},
    {T(BINDING_ATTR), "battr", "{nopass|<access>|deferred|non_overridable|pass { ( N )}?}"},
    {0, "tbpd", "N {=> N}?"},
    {0, "cattr", "{allocatable|<access>|codimension [ <coshape> ]|contiguous|dimension ( <cshape> )|pointer}"},
    {T(COMPONENT_ARRAY_SPEC), "cshape", "{@expl|@colon}"},
    {T(COMPONENT_DECL), "compdecl", "N { ( <cshape> )}? {[ <coshape> ]}? {* <charlen>}? {<init>}?"},
    {0, "tattr", "{abstract|<access>|bind ( C )|extends ( N )}"},
    {0, "nconst", "N = E"},
    {T(ALLOC_OPT), "allocopt", "{errmsg = <var>|mold = E|source = E|stat = <var>}"},
    {T(DEALLOC_OPT), "deallocopt", "{errmsg = <var>|stat = <var>}"},
    {T(ALLOCATE_OBJECT), "allocobj", "{N|<sc>}"},
    {T(ALLOCATE_SHAPE_SPEC), "allocshape", "{E :}? E"},
    {T(ALLOCATE_COARRAY_SPEC), "alloccosh", "{@expl ,}? {E :}? *"},
    {T(ALLOCATION), "allocation", "<allocobj> { ( @allocshape )}? {[ <alloccosh> ]}?"},
    {T(ASSOCIATION), "assoc", "N => E"},
    {T(CASE_VALUE_RANGE), "crange", "{E|E :|: E|E : E}"},
    {T(LETTER_SPEC), "letters", "L {- L}?"},
    {0, "ispec", "<dts> ( @letters )"},
    {0, "blk", "{/ {N}? /|//}"},
    {0, "cbo", "N { ( <shape> )}?"},
    {T(EQUIVALENCE_OBJECT), "eqobj", "{N|N ( @E )|N ( <srange> )|N ( @E ) ( <srange> )|S ( <srange> )}"},
    {T(EQUIVALENCE_SET), "eqset", "( <eqobj> , @eqobj )"},
    {0, "sign", "{+|-}"},
    {0, "dconst", "{I|S|{<sign>}? 1.5|{<sign>}? 1.5e3_k|{<sign>}? I|.true.|.false.|<elem>|N ( {@argspec}? )}"},
    {0, "drep", "{I|<elem>}"},
    {T(DATA_STMT_VALUE), "dval", "{<drep> *}? <dconst>"},
    {0, "dobj", "{<var>|P}"},
    {T(DATA_STMT_SET), "dset", "@dobj / @dval /"},
    {0, "bentity", "{N|/ N /}"},
    {0, "brange", "E : E"},
    {0, "bspec", "E :"},
    {0, "waitspec", "{E|unit = E|end = LBL|eor = LBL|err = LBL|id = E|iomsg = <var>|iostat = <var>}"},
    // ================================================= statements
    {T(ACCESS_STMT), "access-stmt", "<access> {{::}? @gspec}?"},
    {T(ALLOCATABLE_STMT), "allocatable-stmt", "allocatable {::}? @allocdecl"},
    {T(ALLOCATE_STMT), "allocate-stmt", "allocate ( {<tspec> ::}? @allocation { , @allocopt}? )"},
    {T(ASSIGNMENT_STMT), "assignment-stmt", "<var> = E"},
    {T(ASSOCIATE_STMT), "associate-stmt", "{N :}? associate ( @assoc )"},
    {T(ASYNCHRONOUS_STMT), "asynchronous-stmt", "asynchronous {::}? @N"},
    {T(ARITHMETIC_IF_STMT), "arithmetic-if-stmt", "if ( E ) LBL , LBL , LBL"},
    {T(BACKSPACE_STMT), "backspace-stmt", "backspace {E|P}"},
    {T(BIND_STMT), "bind-stmt", "<lbs> {::}? @bentity"},
    {T(BINDING_PRIVATE_STMT), "binding-private-stmt", "private"},
    {T(BLOCK_STMT), "block-stmt", "{N :}? block"},
    {T(CALL_STMT), "call-stmt", "call <pdesig> { ( {<carglist>}? )}?"},
    {T(CASE_STMT), "case-stmt", "case {( @crange )|default} {N}?"},
    {T(CLOSE_STMT), "close-stmt", "close P"},
    {T(CODIMENSION_STMT), "codimension-stmt", "codimension {::}? @codecl"},
    {T(COMMON_STMT), "common-stmt", "common {<blk>}? @cbo {{,}? <blk> @cbo}*"},
    {T(COMPUTED_GOTO_STMT), "computed-goto-stmt", "go to ( @LBL ) {,}? E"},
    {T(CONTAINS_STMT), "contains-stmt", "contains"},
    {T(CONTINUE_STMT), "continue-stmt", "continue"},
    {T(CYCLE_STMT), "cycle-stmt", "cycle {N}?"},
    {T(DATA_COMPONENT_DEF_STMT), "data-component-def-stmt", "<dts> {{ , @cattr}? ::}? @compdecl"},
    {T(DATA_STMT), "data-stmt", "data <dset> {{,}? <dset>}*"},
    {T(DEALLOCATE_STMT), "deallocate-stmt", "deallocate ( @allocobj { , @deallocopt}? )"},
    {T(DERIVED_TYPE_STMT), "derived-type-stmt", "type {{ , @tattr}? ::}? N { ( @N )}?"},
    {T(DIMENSION_STMT), "dimension-stmt", "dimension {::}? @dimdecl"},
    {T(DO_STMT), "do-stmt", "{N :}? do {LBL}? {<loop>}?"},
    {T(ELSE_IF_STMT), "else-if-stmt", "else if ( E ) then {N}?"},
    {T(ELSE_STMT), "else-stmt", "else {N}?"},
    {T(ELSEWHERE_STMT), "elsewhere-stmt", "else where {N}?"},
    {T(END_ASSOCIATE_STMT), "end-associate-stmt", "end associate {N}?"},
    {T(END_BLOCK_STMT), "end-block-stmt", "end block {N}?"},
    {T(END_DO_STMT), "end-do-stmt", "end do {N}?"},
    {T(END_ENUM_STMT), "end-enum-stmt", "end enum"},
    {T(END_FORALL_STMT), "end-forall-stmt", "end forall {N}?"},
    {T(END_FUNCTION_STMT), "end-function-stmt", "end {function {N}?}?"},
    {T(END_IF_STMT), "end-if-stmt", "end if {N}?"},
    {T(END_INTERFACE_STMT), "end-interface-stmt", "end interface {<gspec>}?"},
    {T(END_MODULE_STMT), "end-module-stmt", "end {module {N}?}?"},
    {T(END_MP_SUBPROGRAM_STMT), "end-mp-subprogram-stmt", "end {procedure {N}?}?"},
    {T(END_PROGRAM_STMT), "end-program-stmt", "end {program {N}?}?"},
    {T(END_SELECT_STMT), "end-select-stmt", "end select {N}?"},
    {T(END_SELECT_RANK_STMT), "end-select-rank-stmt", "end select {N}?"},
    {T(END_SELECT_TYPE_STMT), "end-select-type-stmt", "end select {N}?"},
    {T(END_SUBMODULE_STMT), "end-submodule-stmt", "end {submodule {N}?}?"},
    {T(END_SUBROUTINE_STMT), "end-subroutine-stmt", "end {subroutine {N}?}?"},
    {T(END_TYPE_STMT), "end-type-stmt", "end type {N}?"},
    {T(END_WHERE_STMT), "end-where-stmt", "end where {N}?"},
    {T(ENDFILE_STMT), "endfile-stmt", "end file {E|P}"},
    {T(ENUM_DEF_STMT), "enum-def-stmt", "enum , bind ( C )"},
    {T(ENUMERATOR_DEF_STMT), "enumerator-def-stmt", "enumerator {::}? @enumtor"},
    {T(EQUIVALENCE_STMT), "equivalence-stmt", "equivalence @eqset"},
    {T(ENTRY_STMT), "entry-stmt", "entry N { ( {@dumarg}? ) {<suffix>}?}?"},
    {T(ERROR_STOP_STMT), "error-stop-stmt", "error stop {E}? { , quiet = E}?"},
    {T(EVENT_POST_STMT), "event-post-stmt", "event post ( <var> { , @sstat}? )"},
    {T(EVENT_WAIT_STMT), "event-wait-stmt", "event wait ( <var> { , @evspec}? )"},
    {T(EXIT_STMT), "exit-stmt", "exit {N}?"},
    {T(EXTERNAL_STMT), "external-stmt", "external {::}? @N"},
    {T(FAIL_IMAGE_STMT), "fail-image-stmt", "fail image"},
    {T(FLUSH_STMT), "flush-stmt", "flush {E|P}"},
    {T(FORALL_CONSTRUCT_STMT), "forall-construct-stmt", "{N :}? forall <chead>"},
    {T(FORALL_STMT), "forall-stmt", "forall <chead> {<assignment-stmt>|<pointer-assignment-stmt>}"},
    {T(FORM_TEAM_STMT), "form-team-stmt", "form team ( E , <var> { , @ftspec}? )"},
    {T(FORMAT_STMT), "format-stmt", "format P"},
    {T(FINAL_PROCEDURE_STMT), "final-procedure-stmt", "final {::}? @N"},
    {T(FUNCTION_STMT), "function-stmt", "{<prefixspec>}* function N {( {@N}? )}? {<suffix>}?"},
    {T(GENERIC_STMT), "generic-stmt", "generic { , <access>}? :: <gspec> => @N"},
    {T(GOTO_STMT), "goto-stmt", "go to LBL"},
    {T(IF_STMT), "if-stmt", "if ( E ) <action>"},
    {T(IF_THEN_STMT), "if-then-stmt", "{N :}? if ( E ) then"},
    {T(IMPLICIT_STMT), "implicit-stmt", "implicit {none { ( {@inone}? )}?|@ispec}"},
    {T(IMPORT_STMT), "import-stmt", "{import {{::}? @N}?|import , only : @N|import , none|import , all}"},
    {T(INQUIRE_STMT), "inquire-stmt", "inquire P {@outp}?"},
    {T(INTENT_STMT), "intent-stmt", "intent ( <intent> ) {::}? @N"},
    {T(INTERFACE_STMT), "interface-stmt", "{interface {<gspec>}?|abstract interface}"},
    {T(INTRINSIC_STMT), "intrinsic-stmt", "intrinsic {::}? @N"},
    {T(LABEL_DO_STMT), "label-do-stmt", "{N :}? do LBL {<loop>}?"},
    {T(LOCK_STMT), "lock-stmt", "lock ( <var> { , @lockspec}? )"},
    {T(MASKED_ELSEWHERE_STMT), "masked-elsewhere-stmt", "else where ( E ) {N}?"},
    {T(MACRO_STMT), "macro-stmt", "N P"},
    {T(MODULE_STMT), "module-stmt", "module N"},
    {T(MP_SUBPROGRAM_STMT), "mp-subprogram-stmt", "module procedure N"},
    {T(NAMELIST_STMT), "namelist-stmt", "namelist / N / @N {{,}? / N / @N}*"},
    {T(NONLABEL_DO_STMT), "nonlabel-do-stmt", "{N :}? do {<loop>}?"},
    {T(NULLIFY_STMT), "nullify-stmt", "nullify ( @allocobj0 )"},
    {T(OPEN_STMT), "open-stmt", "open P"},
    {T(OPTIONAL_STMT), "optional-stmt", "optional {::}? @N"},
    {T(PARAMETER_STMT), "parameter-stmt", "parameter ( @nconst )"},
    {T(POINTER_ASSIGNMENT_STMT), "pointer-assignment-stmt", "{<var>|<pdesig> ( @brange )|<pdesig> ( @bspec )} => E"},
    {T(POINTER_STMT), "pointer-stmt", "pointer {::}? @ptrdecl"},
    {T(PRINT_STMT), "print-stmt", "print <format> { , @outp}?"},
    {T(PRIVATE_COMPONENTS_STMT), "private-components-stmt", "private"},
    {T(PROC_COMPONENT_DEF_STMT), "proc-component-def-stmt", "procedure ( {<piface>}? ) , @pcattr :: @procdecl"},
    {T(PROCEDURE_DECLARATION_STMT), "procedure-declaration-stmt", "procedure ( {<piface>}? ) {{ , <pattr>}* ::}? @procdecl"},
    {T(PROCEDURE_STMT), "procedure-stmt", "{module}? procedure {::}? @N"},
    {T(PROGRAM_STMT), "program-stmt", "program N"},
    {T(PROTECTED_STMT), "protected-stmt", "protected {::}? @N"},
    {T(READ_STMT), "read-stmt", "read {P {@inp}?|<format> { , @inp}?}"},
    {T(RETURN_STMT), "return-stmt", "return {E}?"},
    {T(REWIND_STMT), "rewind-stmt", "rewind {E|P}"},
    {T(SAVE_STMT), "save-stmt", "save {{::}? @bentity}?"},
    {T(SELECT_CASE_STMT), "select-case-stmt", "{N :}? select case ( E )"},
    {T(SELECT_RANK_CASE_STMT), "select-rank-case-stmt", "rank {( E )|( * )|default} {N}?"},
    {T(SELECT_RANK_STMT), "select-rank-stmt", "{N :}? select rank ( {N =>}? E )"},
    {T(SELECT_TYPE_STMT), "select-type-stmt", "{N :}? select type ( {N =>}? E )"},
    {T(SEQUENCE_STMT), "sequence-stmt", "sequence"},
    {T(STOP_STMT), "stop-stmt", "stop {E}? { , quiet = E}?"},
    {T(SUBMODULE_STMT), "submodule-stmt", "submodule ( N {: N}? ) N"},
    {T(SUBROUTINE_STMT), "subroutine-stmt", "{<prefixspec>}* subroutine N { ( {@dumarg}? )}? {<lbs>}?"},
    {T(SYNC_ALL_STMT), "sync-all-stmt", "sync all { ( {@sstat}? )}?"},
    {T(SYNC_IMAGES_STMT), "sync-images-stmt", "sync images ( {*|E} { , @sstat}? )"},
    {T(SYNC_MEMORY_STMT), "sync-memory-stmt", "sync memory { ( {@sstat}? )}?"},
    {T(SYNC_TEAM_STMT), "sync-team-stmt", "sync team ( E { , @sstat}? )"},
    {T(TARGET_STMT), "target-stmt", "target {::}? @allocdecl0"},
    {T(TYPE_BOUND_GENERIC_STMT), "type-bound-generic-stmt", "generic { , <access>}? :: <gspec> => @N"},
    {T(TYPE_BOUND_PROCEDURE_STMT), "type-bound-procedure-stmt", "{procedure {{ , @battr}? ::}? @tbpd|procedure ( N ) , @battr :: @N}"},
    {T(TYPE_DECLARATION_STMT), "type-declaration-stmt", "{<dts> {{ , <attr>}* ::}? <entities>|character * <charlen> , <entities>}"},
    {T(TYPE_GUARD_STMT), "type-guard-stmt", "{type is ( <tspec> ) {N}?|class is ( <dtype> ) {N}?|class default {N}?}"},
    {T(TYPE_PARAM_DEF_STMT), "type-param-def-stmt", "<inttype> , {kind|len} :: @tpdecl"},
    {T(UNLOCK_STMT), "unlock-stmt", "unlock ( <var> { , @sstat}? )"},
    {T(USE_STMT), "use-stmt", "use {{ , {intrinsic|non_intrinsic}}? ::}? N { , @rename| , only : {@only}?}?"},
    {T(VALUE_STMT), "value-stmt", "value {::}? @N"},
    {T(VOLATILE_STMT), "volatile-stmt", "volatile {::}? @N"},
    {T(WAIT_STMT), "wait-stmt", "wait ( @waitspec )"},
    {T(WHERE_CONSTRUCT_STMT), "where-construct-stmt", "{N :}? where ( E )"},
    {T(WHERE_STMT), "where-stmt", "where ( E ) <assignment-stmt>"},
    {T(WRITE_STMT), "write-stmt", "write P {@outp}?"},
    // ---- the rest of the parts
    {T(ALLOCATABLE_DECL), "allocdecl", "N { ( <shape> )}? {[ <coshape> ]}?"},
    {T(TARGET_DECL), "allocdecl0", "N { ( <shape> )}? {[ <coshape> ]}?"},
    {T(CODIMENSION_DECL), "codecl", "N [ <coshape> ]"},
    {0, "dimdecl", "N ( <shape> )"},
    {T(ENUMERATOR), "enumtor", "N {= E}?"},
    {0, "evspec", "{<sstat>|until_count = E}"},
    {0, "ftspec", "{<sstat>|new_index = E}"},
    {0, "lockspec", "{<sstat>|acquired_lock = <var>}"},
    {0, "inone", "{type|external}"},
    {T(POINTER_OBJECT), "allocobj0", "{N|<sc>}"},
    {T(POINTER_DECL), "ptrdecl", "N { ( @colon )}?"},
    {0, "action", "{<assignment-stmt>|<allocate-stmt>|<backspace-stmt>|<call-stmt>|<close-stmt>|<continue-stmt>|<cycle-stmt>|<deallocate-stmt>|<endfile-stmt>|<error-stop-stmt>|<event-post-stmt>|<event-wait-stmt>|<exit-stmt>|<fail-image-stmt>|<flush-stmt>|<form-team-stmt>|<goto-stmt>|<if-stmt>|<inquire-stmt>|<lock-stmt>|<nullify-stmt>|<open-stmt>|<pointer-assignment-stmt>|<print-stmt>|<read-stmt>|<return-stmt>|<rewind-stmt>|<stop-stmt>|<sync-all-stmt>|<sync-images-stmt>|<sync-memory-stmt>|<sync-team-stmt>|<unlock-stmt>|<wait-stmt>|<where-stmt>|<write-stmt>|<computed-goto-stmt>|<arithmetic-if-stmt>|<forall-stmt>|<macro-stmt>}"},
    {T(TYPE_PARAM_DECL), "tpdecl", "N {= E}?"},
};
#undef T
constexpr int NGRULE = sizeof GRULES / sizeof GRULES[0];
// the forms an expression takes in generated sentences
static const char *const EXPRS[] = {"nn", "1", "nn + 1", "nn ( 1 , nn )", "nn % nn", "( nn )", "[ 1 , nn ]", "'s'", "1.5e3_k", "- nn", ".not. nn", "nn ( 1 : 2 )", "nn ( :: 2 )", "nn == 1 .and. nn", "nn ( )", "nn [ 1 ]", "nn // 's'", "( / 1 , 2 / )", "nn ( nn = 1 )", "( 1.5 , 2. )", "nn ** nn .a. 1"};
constexpr int NEXPR = sizeof EXPRS / sizeof EXPRS[0];
static const char *const PLISTS[] = {"( nn )", "( nn , nn = 1 )", "( * , '(a)' )", "( )", "( ( nn ( nn ) , nn = 1 , 2 ) )"};
constexpr int NPLIST = sizeof PLISTS / sizeof PLISTS[0];

enum GK { G_LIT, G_REF, G_SEQ, G_ALT, G_OPT, G_STAR, G_LIST, G_NAME, G_LETTER, G_C, G_INT, G_LBL, G_STR, G_EXPR, G_PL };
struct GNode {
  GK k;
  int a = 0;           // G_REF: rule; G_LIT: literal
  bool loose = false;
  std::vector<int> ch;
};
struct Gram {
  std::vector<GNode> nodes;
  std::vector<int> rule; // rule -> node
  std::vector<std::string> lit;
  std::vector<std::vector<int>> tags; // of a literal
  int find(const std::string &n) {
    for (int i = 0; i < NGRULE; i++)
      if (n == GRULES[i].name) return i;
    CHECK(false, "harness: unknown rule");
    return -1;
  }
  int node(GK k, int a = 0) {
    GNode n;
    n.k = k;
    n.a = a;
    nodes.push_back(n);
    return (int)nodes.size() - 1;
  }
  static std::vector<int> lex(const std::string &s) {
    Logical_Line ll("k " + s);
    std::vector<int> r;
    auto it = ll.fragments().begin();
    for (++it; it != ll.fragments().end(); ++it) r.push_back(it->token);
    return r;
  }
  int literal(const std::string &s) {
    for (size_t i = 0; i < lit.size(); i++)
      if (lit[i] == s) return (int)i;
    lit.push_back(s);
    tags.push_back(lex(s));
    return (int)lit.size() - 1;
  }
  // {a|b c}? ...
  int seq(const std::vector<std::string> &w, size_t &i) {
    int alt = -1, s = node(G_SEQ);
    while (i < w.size() && w[i][0] != '}') {
      const std::string &x = w[i];
      int n;
      if (x == "|") {
        if (alt < 0) alt = node(G_ALT);
        nodes[alt].ch.push_back(s);
        s = node(G_SEQ);
        i++;
        continue;
      }
      if (x == "{") {
        i++;
        int in = seq(w, i);
        if (w[i] == "}?") {
          n = node(G_OPT);
          nodes[n].ch.push_back(in);
        } else if (w[i] == "}*") {
          n = node(G_STAR);
          nodes[n].ch.push_back(in);
        } else
          n = in;
        i++;
      } else {
        n = word(x);
        i++;
      }
      nodes[s].ch.push_back(n);
    }
    if (alt >= 0) {
      nodes[alt].ch.push_back(s);
      return alt;
    }
    return s;
  }
  int word(const std::string &x) {
    if (x == "N") return node(G_NAME);
    if (x == "L") return node(G_LETTER);
    if (x == "C") return node(G_C);
    if (x == "I") return node(G_INT);
    if (x == "LBL") return node(G_LBL);
    if (x == "S") return node(G_STR);
    if (x == "E") return node(G_EXPR);
    if (x == "P") return node(G_PL);
    if (x[0] == '@') {
      int e = word(x.substr(1));
      if (nodes[e].k == G_LIT) {
        nodes[e].k = G_REF;
        nodes[e].a = find(x.substr(1));
      }
      int n = node(G_LIST);
      nodes[n].ch.push_back(e);
      return n;
    }
    if (x[0] == '~' && x.size() > 1) { // accepted, but not promised
      int n = word(x.substr(1));
      nodes[n].loose = true;
      return n;
    }
    if (x.size() > 2 && x[0] == '<' && x[x.size() - 1] == '>') return node(G_REF, find(x.substr(1, x.size() - 2)));
    return node(G_LIT, -1 - pending(x));
  }
  std::vector<std::string> pend;
  int pending(const std::string &x) {
    for (size_t i = 0; i < pend.size(); i++)
      if (pend[i] == x) return (int)i;
    pend.push_back(x);
    return (int)pend.size() - 1;
  }
  void parse(int r) {
    if (rule[r] >= 0) return;
    std::vector<std::string> w;
    std::string c;
    for (const char *p = GRULES[r].rhs; *p; p++) {
      if (*p == '{' || *p == '|') {
        if (!c.empty()) w.push_back(c), c.clear();
        w.push_back(std::string(1, *p));
      } else if (*p == '}') {
        if (!c.empty()) w.push_back(c), c.clear();
        std::string e(1, '}');
        if (p[1] == '?' || p[1] == '*') e += *++p;
        w.push_back(e);
      } else if (*p == ' ') {
        if (!c.empty()) w.push_back(c), c.clear();
      } else
        c += *p;
    }
    if (!c.empty()) w.push_back(c);
    size_t i = 0;
    size_t first = nodes.size();
    rule[r] = -2;
    int n = seq(w, i);
    CHECK(i == w.size(), "harness: rule text");
    rule[r] = n;
    size_t last = nodes.size();
    for (size_t q = first; q < last; q++) {
      if (nodes[q].k == G_LIT && nodes[q].a < 0) nodes[q].a = literal(pend[(size_t)(-1 - nodes[q].a)]);
    }
    for (size_t q = first; q < last; q++)
      if (nodes[q].k == G_REF) parse(nodes[q].a);
  }
  std::vector<std::vector<int>> etags, ptags;
  Gram() : rule((size_t)NGRULE, -1) {}
  void load(int lo, int hi) {
    for (int r = lo; r < hi && r < NGRULE; r++) parse(r);
    for (int i = 0; i < NEXPR; i++) etags.push_back(lex(EXPRS[i]));
    for (int i = 0; i < NPLIST; i++) ptags.push_back(lex(PLISTS[i]));
  }
};
static int first_stmt() {
  for (int i = 0; i < NGRULE; i++)
    if (!strcmp(GRULES[i].name, "access-stmt")) return i;
  return -1;
}
static int last_stmt() {
  for (int i = 0; i < NGRULE; i++)
    if (!strcmp(GRULES[i].name, "write-stmt")) return i + 1;
  return -1;
}
struct GSpan {
  int tag, from, to;
};
// one sentence: the choices are symbolic; at most `budget` of them differ
// from the first alternative
struct GGen {
  const Gram &g;
  int budget;
  std::string text;
  std::vector<int> toks;
  std::vector<GSpan> spans;
  std::vector<int> names; // token indices that are names
  GGen(const Gram &gr, int b) : g(gr), budget(b) {}
  int pick(int n) {
    if (budget <= 0) return 0;
    int c = (int)sx_choose((unsigned)n, "choice");
    if (c) budget--;
    return c;
  }
  void put(const std::string &s, const std::vector<int> &t) {
    if (!text.empty()) text += ' ';
    text += s;
    for (int x : t) toks.push_back(x);
  }
  void one(const char *s, int t) {
    std::vector<int> v(1, t);
    put(s, v);
  }
  bool loose(int n) {
    const GNode &x = g.nodes[(size_t)n];
    return x.loose || (x.k == G_SEQ && x.ch.size() == 1 && loose(x.ch[0]));
  }
  void gen(int n) {
    const GNode &x = g.nodes[(size_t)n];
    switch (x.k) {
    case G_LIT: put(g.lit[(size_t)x.a], g.tags[(size_t)x.a]); break;
    case G_REF: rule(x.a); break;
    case G_SEQ:
      for (int c : x.ch) gen(c);
      break;
    case G_ALT: {
      size_t c = x.ch.size();
      while (loose(x.ch[c - 1])) c--;
      gen(x.ch[(size_t)pick((int)c)]);
      break;
    }
    case G_OPT:
      if (pick(2)) gen(x.ch[0]);
      break;
    case G_STAR:
      for (int i = 0; i < 2 && pick(2); i++) gen(x.ch[0]);
      break;
    case G_LIST:
      gen(x.ch[0]);
      for (int i = 0; i < 2 && pick(2); i++) {
        one(",", Syntax_Tags::TK_COMMA);
        gen(x.ch[0]);
      }
      break;
    case G_NAME:
      names.push_back((int)toks.size());
      one("nn", Syntax_Tags::TK_NAME);
      break;
    case G_LETTER: one("a", Syntax_Tags::TK_NAME); break;
    case G_C: one("c", Syntax_Tags::TK_NAME); break;
    case G_INT: one("8", Syntax_Tags::SG_INT_LITERAL_CONSTANT); break;
    case G_LBL: one("10", Syntax_Tags::SG_INT_LITERAL_CONSTANT); break;
    case G_STR: one("'s'", Syntax_Tags::SG_CHAR_LITERAL_CONSTANT); break;
    case G_EXPR: {
      int i = pick(NEXPR), b = (int)toks.size();
      put(EXPRS[i], g.etags[(size_t)i]);
      span(Syntax_Tags::SG_EXPR, b);
      break;
    }
    case G_PL: {
      int i = pick(NPLIST);
      put(PLISTS[i], g.ptags[(size_t)i]);
      break;
    }
    }
  }
  void span(int tag, int b) {
    if (!tag || b == (int)toks.size()) return;
    GSpan s;
    s.tag = tag;
    s.from = b;
    s.to = (int)toks.size();
    spans.push_back(s);
  }
  void rule(int r) {
    int b = (int)toks.size();
    gen(g.rule[(size_t)r]);
    span(GRULES[r].tag, b);
  }
};
// is a run of tokens a sentence of a rule?  All ends reachable from a set of
// starts, as bit masks.
struct GTok {
  int tag;
  std::string text;
};
struct GRec {
  const Gram &g;
  std::vector<GTok> t;
  GRec(const Gram &gr) : g(gr) {}
  static bool is_name(int tag) { return tag == Syntax_Tags::TK_NAME || (tag > Syntax_Tags::KW_000_LB && tag < Syntax_Tags::KW_ZZZ_UB); }
  uint64_t step(uint64_t m, int tag) {
    uint64_t r = 0;
    for (size_t i = 0; i < t.size(); i++)
      if (m >> i & 1)
        if (t[i].tag == tag) r |= (uint64_t)2 << i;
    return r;
  }
  uint64_t expr(uint64_t m) {
    uint64_t r = 0;
    for (size_t i = 0; i < t.size(); i++)
      if (m >> i & 1) {
        if (t[i].tag == Syntax_Tags::TK_ASTERISK || t[i].tag == Syntax_Tags::TK_SLASHF) continue;
        std::vector<int> open;
        for (size_t j = i; j < t.size(); j++) {
          int g1 = t[j].tag;
          if (!bal(open, g1)) break;
          if (open.empty() && (g1 == Syntax_Tags::TK_COMMA || g1 == Syntax_Tags::TK_COLON || g1 == Syntax_Tags::TK_EQUAL || g1 == Syntax_Tags::TK_ARROW)) break;
          if (open.empty()) r |= (uint64_t)2 << j;
        }
      }
    return r;
  }
  // track what is open; false: this token closes something else
  static bool bal(std::vector<int> &open, int tag) {
    if (tag == Syntax_Tags::TK_PARENL) open.push_back(Syntax_Tags::TK_PARENR);
    else if (tag == Syntax_Tags::TK_BRACKETL) open.push_back(Syntax_Tags::TK_BRACKETR);
    else if (tag == Syntax_Tags::TK_PARENR || tag == Syntax_Tags::TK_BRACKETR) {
      if (open.empty() || open.back() != tag) return false;
      open.pop_back();
    }
    return true;
  }
  uint64_t plist(uint64_t m) {
    uint64_t r = 0;
    for (size_t i = 0; i < t.size(); i++)
      if ((m >> i & 1) && t[i].tag == Syntax_Tags::TK_PARENL) {
        std::vector<int> open;
        for (size_t j = i; j < t.size(); j++) {
          if (!bal(open, t[j].tag)) break;
          if (open.empty()) {
            r |= (uint64_t)2 << j;
            break;
          }
        }
      }
    return r;
  }
  uint64_t match(int n, uint64_t m) {
    if (!m) return 0;
    const GNode &x = g.nodes[(size_t)n];
    switch (x.k) {
    case G_LIT:
      for (int y : g.tags[(size_t)x.a]) m = step(m, y);
      return m;
    case G_REF: return match(g.rule[(size_t)x.a], m);
    case G_SEQ:
      for (int c : x.ch) {
        m = match(c, m);
        if (!m) break;
      }
      return m;
    case G_ALT: {
      uint64_t r = 0;
      for (int c : x.ch) r |= match(c, m);
      return r;
    }
    case G_OPT: return m | match(x.ch[0], m);
    case G_STAR:
      for (uint64_t f = m; f;) {
        f = match(x.ch[0], f) & ~m;
        m |= f;
      }
      return m;
    case G_LIST: {
      uint64_t r = match(x.ch[0], m);
      for (uint64_t f = r; f;) {
        f = match(x.ch[0], step(f, Syntax_Tags::TK_COMMA)) & ~r;
        r |= f;
      }
      return r;
    }
    case G_NAME:
    case G_LETTER:
    case G_C: {
      uint64_t r = 0;
      for (size_t i = 0; i < t.size(); i++)
        if (m >> i & 1) {
          if (x.k == G_LETTER && t[i].text.size() != 1) continue;
          if (x.k == G_C && t[i].text != "c") continue;
          if (is_name(t[i].tag)) r |= (uint64_t)2 << i;
        }
      return r;
    }
    case G_LBL: {
      uint64_t r = 0;
      for (size_t i = 0; i < t.size(); i++)
        if ((m >> i & 1) && t[i].text.size() < 6 && t[i].tag == Syntax_Tags::SG_INT_LITERAL_CONSTANT) r |= (uint64_t)2 << i;
      return r;
    }
    case G_INT: return step(m, Syntax_Tags::SG_INT_LITERAL_CONSTANT);
    case G_STR: return step(m, Syntax_Tags::SG_CHAR_LITERAL_CONSTANT);
    case G_EXPR: return expr(m);
    case G_PL: return plist(m);
    }
    return 0;
  }
  bool whole(int rule) { return match(g.rule[(size_t)rule], 1) >> t.size() & 1; }
};
