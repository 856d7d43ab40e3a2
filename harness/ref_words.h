// The keywords and run-together keyword pairs of the language, as the scanner is
// documented to know them.
#pragma once
#include "flpr/Syntax_Tags.hh"
struct RefKw { const char *txt; int tag; };
static const RefKw REF_KW[] = {
    {"abstract", FLPR::Syntax_Tags::KW_ABSTRACT},
    {"acquired_lock", FLPR::Syntax_Tags::KW_ACQUIRED_LOCK},
    {"all", FLPR::Syntax_Tags::KW_ALL},
    {"allocatable", FLPR::Syntax_Tags::KW_ALLOCATABLE},
    {"allocate", FLPR::Syntax_Tags::KW_ALLOCATE},
    {"assignment", FLPR::Syntax_Tags::KW_ASSIGNMENT},
    {"associate", FLPR::Syntax_Tags::KW_ASSOCIATE},
    {"asynchronous", FLPR::Syntax_Tags::KW_ASYNCHRONOUS},
    {"backspace", FLPR::Syntax_Tags::KW_BACKSPACE},
    {"bind", FLPR::Syntax_Tags::KW_BIND},
    {"block", FLPR::Syntax_Tags::KW_BLOCK},
    {"call", FLPR::Syntax_Tags::KW_CALL},
    {"case", FLPR::Syntax_Tags::KW_CASE},
    {"character", FLPR::Syntax_Tags::KW_CHARACTER},
    {"class", FLPR::Syntax_Tags::KW_CLASS},
    {"close", FLPR::Syntax_Tags::KW_CLOSE},
    {"codimension", FLPR::Syntax_Tags::KW_CODIMENSION},
    {"common", FLPR::Syntax_Tags::KW_COMMON},
    {"complex", FLPR::Syntax_Tags::KW_COMPLEX},
    {"concurrent", FLPR::Syntax_Tags::KW_CONCURRENT},
    {"contains", FLPR::Syntax_Tags::KW_CONTAINS},
    {"contiguous", FLPR::Syntax_Tags::KW_CONTIGUOUS},
    {"continue", FLPR::Syntax_Tags::KW_CONTINUE},
    {"critical", FLPR::Syntax_Tags::KW_CRITICAL},
    {"cycle", FLPR::Syntax_Tags::KW_CYCLE},
    {"data", FLPR::Syntax_Tags::KW_DATA},
    {"deallocate", FLPR::Syntax_Tags::KW_DEALLOCATE},
    {"default", FLPR::Syntax_Tags::KW_DEFAULT},
    {"deferred", FLPR::Syntax_Tags::KW_DEFERRED},
    {"dimension", FLPR::Syntax_Tags::KW_DIMENSION},
    {"do", FLPR::Syntax_Tags::KW_DO},
    {"dowhile", FLPR::Syntax_Tags::KW_DOWHILE},
    {"double", FLPR::Syntax_Tags::KW_DOUBLE},
    {"doubleprecision", FLPR::Syntax_Tags::KW_DOUBLEPRECISION},
    {"elemental", FLPR::Syntax_Tags::KW_ELEMENTAL},
    {"else", FLPR::Syntax_Tags::KW_ELSE},
    {"end", FLPR::Syntax_Tags::KW_END},
    {"entry", FLPR::Syntax_Tags::KW_ENTRY},
    {"enum", FLPR::Syntax_Tags::KW_ENUM},
    {"enumerator", FLPR::Syntax_Tags::KW_ENUMERATOR},
    {"eor", FLPR::Syntax_Tags::KW_EOR},
    {"equivalence", FLPR::Syntax_Tags::KW_EQUIVALENCE},
    {"err", FLPR::Syntax_Tags::KW_ERR},
    {"errmsg", FLPR::Syntax_Tags::KW_ERRMSG},
    {"error", FLPR::Syntax_Tags::KW_ERROR},
    {"event", FLPR::Syntax_Tags::KW_EVENT},
    {"exit", FLPR::Syntax_Tags::KW_EXIT},
    {"extends", FLPR::Syntax_Tags::KW_EXTENDS},
    {"external", FLPR::Syntax_Tags::KW_EXTERNAL},
    {"fail", FLPR::Syntax_Tags::KW_FAIL},
    {"file", FLPR::Syntax_Tags::KW_FILE},
    {"final", FLPR::Syntax_Tags::KW_FINAL},
    {"flush", FLPR::Syntax_Tags::KW_FLUSH},
    {"forall", FLPR::Syntax_Tags::KW_FORALL},
    {"form", FLPR::Syntax_Tags::KW_FORM},
    {"format", FLPR::Syntax_Tags::KW_FORMAT},
    {"formatted", FLPR::Syntax_Tags::KW_FORMATTED},
    {"function", FLPR::Syntax_Tags::KW_FUNCTION},
    {"generic", FLPR::Syntax_Tags::KW_GENERIC},
    {"go", FLPR::Syntax_Tags::KW_GO},
    {"id", FLPR::Syntax_Tags::KW_ID},
    {"if", FLPR::Syntax_Tags::KW_IF},
    {"image", FLPR::Syntax_Tags::KW_IMAGE},
    {"images", FLPR::Syntax_Tags::KW_IMAGES},
    {"implicit", FLPR::Syntax_Tags::KW_IMPLICIT},
    {"import", FLPR::Syntax_Tags::KW_IMPORT},
    {"impure", FLPR::Syntax_Tags::KW_IMPURE},
    {"in", FLPR::Syntax_Tags::KW_IN},
    {"include", FLPR::Syntax_Tags::KW_INCLUDE},
    {"inout", FLPR::Syntax_Tags::KW_INOUT},
    {"inquire", FLPR::Syntax_Tags::KW_INQUIRE},
    {"integer", FLPR::Syntax_Tags::KW_INTEGER},
    {"intent", FLPR::Syntax_Tags::KW_INTENT},
    {"interface", FLPR::Syntax_Tags::KW_INTERFACE},
    {"intrinsic", FLPR::Syntax_Tags::KW_INTRINSIC},
    {"iomsg", FLPR::Syntax_Tags::KW_IOMSG},
    {"iostat", FLPR::Syntax_Tags::KW_IOSTAT},
    {"is", FLPR::Syntax_Tags::KW_IS},
    {"kind", FLPR::Syntax_Tags::KW_KIND},
    {"len", FLPR::Syntax_Tags::KW_LEN},
    {"local", FLPR::Syntax_Tags::KW_LOCAL},
    {"local_init", FLPR::Syntax_Tags::KW_LOCAL_INIT},
    {"lock", FLPR::Syntax_Tags::KW_LOCK},
    {"logical", FLPR::Syntax_Tags::KW_LOGICAL},
    {"memory", FLPR::Syntax_Tags::KW_MEMORY},
    {"module", FLPR::Syntax_Tags::KW_MODULE},
    {"mold", FLPR::Syntax_Tags::KW_MOLD},
    {"name", FLPR::Syntax_Tags::KW_NAME},
    {"namelist", FLPR::Syntax_Tags::KW_NAMELIST},
    {"new_index", FLPR::Syntax_Tags::KW_NEW_INDEX},
    {"nopass", FLPR::Syntax_Tags::KW_NOPASS},
    {"non_intrinsic", FLPR::Syntax_Tags::KW_NON_INTRINSIC},
    {"non_overridable", FLPR::Syntax_Tags::KW_NON_OVERRIDABLE},
    {"non_recursive", FLPR::Syntax_Tags::KW_NON_RECURSIVE},
    {"none", FLPR::Syntax_Tags::KW_NONE},
    {"nullify", FLPR::Syntax_Tags::KW_NULLIFY},
    {"only", FLPR::Syntax_Tags::KW_ONLY},
    {"open", FLPR::Syntax_Tags::KW_OPEN},
    {"operator", FLPR::Syntax_Tags::KW_OPERATOR},
    {"optional", FLPR::Syntax_Tags::KW_OPTIONAL},
    {"out", FLPR::Syntax_Tags::KW_OUT},
    {"parameter", FLPR::Syntax_Tags::KW_PARAMETER},
    {"pass", FLPR::Syntax_Tags::KW_PASS},
    {"pointer", FLPR::Syntax_Tags::KW_POINTER},
    {"post", FLPR::Syntax_Tags::KW_POST},
    {"precision", FLPR::Syntax_Tags::KW_PRECISION},
    {"print", FLPR::Syntax_Tags::KW_PRINT},
    {"private", FLPR::Syntax_Tags::KW_PRIVATE},
    {"procedure", FLPR::Syntax_Tags::KW_PROCEDURE},
    {"program", FLPR::Syntax_Tags::KW_PROGRAM},
    {"protected", FLPR::Syntax_Tags::KW_PROTECTED},
    {"public", FLPR::Syntax_Tags::KW_PUBLIC},
    {"pure", FLPR::Syntax_Tags::KW_PURE},
    {"quiet", FLPR::Syntax_Tags::KW_QUIET},
    {"rank", FLPR::Syntax_Tags::KW_RANK},
    {"read", FLPR::Syntax_Tags::KW_READ},
    {"real", FLPR::Syntax_Tags::KW_REAL},
    {"recursive", FLPR::Syntax_Tags::KW_RECURSIVE},
    {"result", FLPR::Syntax_Tags::KW_RESULT},
    {"return", FLPR::Syntax_Tags::KW_RETURN},
    {"rewind", FLPR::Syntax_Tags::KW_REWIND},
    {"save", FLPR::Syntax_Tags::KW_SAVE},
    {"select", FLPR::Syntax_Tags::KW_SELECT},
    {"sequence", FLPR::Syntax_Tags::KW_SEQUENCE},
    {"shared", FLPR::Syntax_Tags::KW_SHARED},
    {"source", FLPR::Syntax_Tags::KW_SOURCE},
    {"stat", FLPR::Syntax_Tags::KW_STAT},
    {"stop", FLPR::Syntax_Tags::KW_STOP},
    {"submodule", FLPR::Syntax_Tags::KW_SUBMODULE},
    {"subroutine", FLPR::Syntax_Tags::KW_SUBROUTINE},
    {"sync", FLPR::Syntax_Tags::KW_SYNC},
    {"target", FLPR::Syntax_Tags::KW_TARGET},
    {"team", FLPR::Syntax_Tags::KW_TEAM},
    {"team_number", FLPR::Syntax_Tags::KW_TEAM_NUMBER},
    {"then", FLPR::Syntax_Tags::KW_THEN},
    {"to", FLPR::Syntax_Tags::KW_TO},
    {"type", FLPR::Syntax_Tags::KW_TYPE},
    {"unformatted", FLPR::Syntax_Tags::KW_UNFORMATTED},
    {"unit", FLPR::Syntax_Tags::KW_UNIT},
    {"unlock", FLPR::Syntax_Tags::KW_UNLOCK},
    {"until_count", FLPR::Syntax_Tags::KW_UNTIL_COUNT},
    {"use", FLPR::Syntax_Tags::KW_USE},
    {"value", FLPR::Syntax_Tags::KW_VALUE},
    {"volatile", FLPR::Syntax_Tags::KW_VOLATILE},
    {"wait", FLPR::Syntax_Tags::KW_WAIT},
    {"where", FLPR::Syntax_Tags::KW_WHERE},
    {"while", FLPR::Syntax_Tags::KW_WHILE},
    {"write", FLPR::Syntax_Tags::KW_WRITE},
};
static const int REF_NKW = sizeof REF_KW / sizeof REF_KW[0];
struct RefSmash { const char *txt; int t1, t2; int at; };
static const RefSmash REF_SMASH[] = {
    {"goto", FLPR::Syntax_Tags::KW_GO, FLPR::Syntax_Tags::KW_TO, 2},
    {"enddo", FLPR::Syntax_Tags::KW_END, FLPR::Syntax_Tags::KW_DO, 3},
    {"elseif", FLPR::Syntax_Tags::KW_ELSE, FLPR::Syntax_Tags::KW_IF, 4},
    {"endtype", FLPR::Syntax_Tags::KW_END, FLPR::Syntax_Tags::KW_TYPE, 3},
    {"endfile", FLPR::Syntax_Tags::KW_END, FLPR::Syntax_Tags::KW_FILE, 3},
    {"selecttype", FLPR::Syntax_Tags::KW_SELECT, FLPR::Syntax_Tags::KW_TYPE, 6},
    {"elsewhere", FLPR::Syntax_Tags::KW_ELSE, FLPR::Syntax_Tags::KW_WHERE, 4},
    {"endteam", FLPR::Syntax_Tags::KW_END, FLPR::Syntax_Tags::KW_TEAM, 3},
    {"endselect", FLPR::Syntax_Tags::KW_END, FLPR::Syntax_Tags::KW_SELECT, 3},
    {"endenum", FLPR::Syntax_Tags::KW_END, FLPR::Syntax_Tags::KW_ENUM, 3},
    {"endcritical", FLPR::Syntax_Tags::KW_END, FLPR::Syntax_Tags::KW_CRITICAL, 3},
    {"selectcase", FLPR::Syntax_Tags::KW_SELECT, FLPR::Syntax_Tags::KW_CASE, 6},
    {"endfunction", FLPR::Syntax_Tags::KW_END, FLPR::Syntax_Tags::KW_FUNCTION, 3},
    {"endforall", FLPR::Syntax_Tags::KW_END, FLPR::Syntax_Tags::KW_FORALL, 3},
    {"endassociate", FLPR::Syntax_Tags::KW_END, FLPR::Syntax_Tags::KW_ASSOCIATE, 3},
    {"endif", FLPR::Syntax_Tags::KW_END, FLPR::Syntax_Tags::KW_IF, 3},
    {"endsubmodule", FLPR::Syntax_Tags::KW_END, FLPR::Syntax_Tags::KW_SUBMODULE, 3},
    {"blockdata", FLPR::Syntax_Tags::KW_BLOCK, FLPR::Syntax_Tags::KW_DATA, 5},
    {"endsubroutine", FLPR::Syntax_Tags::KW_END, FLPR::Syntax_Tags::KW_SUBROUTINE, 3},
    {"endwhere", FLPR::Syntax_Tags::KW_END, FLPR::Syntax_Tags::KW_WHERE, 3},
    {"endmodule", FLPR::Syntax_Tags::KW_END, FLPR::Syntax_Tags::KW_MODULE, 3},
    {"endprocedure", FLPR::Syntax_Tags::KW_END, FLPR::Syntax_Tags::KW_PROCEDURE, 3},
    {"endprogram", FLPR::Syntax_Tags::KW_END, FLPR::Syntax_Tags::KW_PROGRAM, 3},
    {"endblock", FLPR::Syntax_Tags::KW_END, FLPR::Syntax_Tags::KW_BLOCK, 3},
    {"endinterface", FLPR::Syntax_Tags::KW_END, FLPR::Syntax_Tags::KW_INTERFACE, 3},
};
static const int REF_NSMASH = sizeof REF_SMASH / sizeof REF_SMASH[0];
