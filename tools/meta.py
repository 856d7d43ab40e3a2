#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
ALL = []
def P(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    ALL.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])], observe_at=observe, hook_needed=None)))

P("P01", "Free-form source survives scanning and printing byte for byte",
  "Scanning a free-form file and printing the resulting lines reproduces every line of the file byte for byte, in order, with no line lost, duplicated or merged. Either the file is reproduced exactly or it is rejected because a character literal is left open; it is never silently changed.",
  ["inputs"], "every file: any characters (including non-ASCII), any mixture of statements, continuations, comments, blank lines, labels, character literals over several lines, preprocessor lines, include lines and literal blocks",
  "The tests scan a handful of fixed lines; what breaks is a particular combination of blanks, quotes, ampersands and comment marks in one line, or of neighbouring lines.",
  ["src/flpr/File_Line.cc", "src/flpr/Logical_Line.cc", "src/flpr/Logical_File.cc", "src/flpr/scan_fort.l"],
  [("partition of a line into label, spaces, text and comment", "File_Line::analyze_free"), ("printing the parts in order", "operator<<(ostream, File_Line)"), ("collection of lines into logical lines", "Logical_File::scan_free")],
  ["Logical_File::scan", "operator<< for Logical_Line and File_Line"])
P("P02", "Fixed-form source survives scanning and printing",
  "Scanning a fixed-form file and printing the resulting lines reproduces every conforming line (blanks, label, continuation column, then text) byte for byte, and loses, duplicates or merges no line. Non-blank text placed in the control columns is never lost or altered, and text beyond the last significant column is kept, at most marked as a comment.",
  ["inputs", "configurations"], "every fixed-form file and every choice of the last significant column",
  "The tests scan fixed single lines; column arithmetic fails at particular lengths and column contents.",
  ["src/flpr/File_Line.cc", "src/flpr/Logical_File.cc", "src/flpr/Logical_Line.cc"],
  [("column-based partition", "File_Line::analyze_fixed"), ("printing the parts in order", "operator<<(ostream, File_Line)"), ("preprocessor continuation", "File_Line::make_preprocessor")],
  ["Logical_File::scan", "operator<< for Logical_Line and File_Line"])
P("P03", "Free-form lines are dissected by the rules of the language",
  "Every free-form line is classified (statement, comment, blank, preprocessor, include, directive, literal block) and split into label, leading continuation mark, statement text, trailing continuation mark and comment exactly as the language rules say, given the character context and continuation it starts in. In particular exclamation marks and ampersands inside character literals are text, outside they are comments and continuations, and the character context passed to the next line is right.",
  ["inputs"], "every line content, in every character context and continuation state",
  "The tests try a few dozen lines; the rules interact (quote inside comment, ampersand before comment, doubled delimiters, blanks around) in far more ways.",
  ["src/flpr/File_Line.cc", "src/flpr/File_Line.hh"],
  [("free-form analysis", "File_Line::analyze_free"), ("comment and continuation search", "File_Line::find_cmt_or_cont_")],
  ["File_Line members and is_*/has_* queries"])
P("P04", "Fixed-form lines are dissected by their columns",
  "Every fixed-form line is classified and split into label (columns 1-5), continuation mark (column 6), statement text (up to the last significant column) and comment exactly as the fixed-form rules say, with the right label value and character context. Exclamation marks inside character literals are text, and a tab in the control columns stands for six blanks.",
  ["inputs", "configurations"], "every line content with up to five label digits, character context and last column",
  "The tests try a few lines; columns, contexts and the last-column limit interact.",
  ["src/flpr/File_Line.cc", "src/flpr/Logical_Line.cc"],
  [("fixed-form analysis", "File_Line::analyze_fixed"), ("label conversion", "Logical_Line::init_from_layout")],
  ["File_Line members and queries", "Logical_Line::label"])
P("P05", "Physical lines are grouped into the right logical lines",
  "Every file is partitioned, in order, into logical lines: one per statement line with all of its continuation lines and the comments and blanks between them, one per run of comments and blanks, per literal block, per include line and per (backslash-continued) preprocessor or directive line. Each logical line carries the right category, label and extent, and a file is rejected only for an unterminated character literal.",
  ["inputs"], "every sequence of physical lines in free and fixed form",
  "The tests group a few hand-written files; grouping depends on state carried across lines.",
  ["src/flpr/Logical_File.cc", "src/flpr/Logical_Line.cc"],
  [("free-form collection", "Logical_File::scan_free"), ("fixed-form collection", "Logical_File::scan_fixed")],
  ["Logical_File::lines", "Logical_Line::layout, cat, label, start_line, end_line"])
P("P06", "Statement text is divided into exactly the right tokens",
  "Every statement text is divided into the tokens the language defines: names, every keyword in any letter case, integer and real constants with exponents and kinds, character and boz literals, operators including dot operators, and punctuation, with keywords written together (such as enddo) delivered as two. Unknown characters give unknown tokens, nothing is dropped, and what one statement is read as never depends on the statements read before it.",
  ["inputs", "histories"], "every statement text and every preceding statement",
  "The tests check some keywords and literals one at a time; ambiguous prefixes (1.eq.2, 1.e5, ** and */) and scanner state carried over need systematic combination.",
  ["src/flpr/scan_fort.l", "src/flpr/Logical_Line.cc", "src/flpr/Smash_Hash.hh", "src/flpr/Syntax_Tags.hh"],
  [("lexical rules", "scan_fort.l"), ("tokenization", "Logical_Line::tokenize"), ("splitting of joined keywords", "Logical_Line::unsmash")],
  ["Logical_Line::fragments"])
P("P07", "Token positions and spacing point at the token's own text",
  "Every token's recorded location within its logical line, and its line and column in the file, are where its text stands, also for tokens continued over several lines, joined keywords and lines between which comments stand. Tokens are in order, do not overlap, leave out nothing but blanks, and the recorded spacing between neighbours on a line is the actual one.",
  ["inputs"], "every statement and its layout over physical lines, in free and fixed form",
  "The tests look at positions in a few layouts; errors appear only for certain mixes of continuation, comments and joined keywords.",
  ["src/flpr/Logical_Line.cc", "src/flpr/Line_Accum.cc", "src/flpr/Token_Text.hh"],
  [("text accumulation with per-line offsets", "Line_Accum"), ("tokenization", "Logical_Line::tokenize"), ("splitting of joined keywords", "Logical_Line::unsmash")],
  ["Token_Text::main_txt_line, main_txt_col, main_txt_eline, main_txt_ecol, start_line, start_pos, pre_spaces, post_spaces"])
P("P08", "Every statement is listed once, with its label and its place",
  "The statements of a logical line are exactly the token runs between semicolons outside character literals, empty ones omitted, and the statement list of a file holds each statement once, in order, with its label (first statement of a line only), its number within a compound line, and the comment, preprocessor and other lines that precede it. A copied or assigned line has statements that refer to its own tokens.",
  ["inputs"], "every compound line and every sequence of lines",
  "The tests use a few compound lines; semicolons combine with labels, empty statements, literals and interspersed lines.",
  ["src/flpr/Logical_Line.cc", "src/flpr/Logical_File.cc", "src/flpr/LL_Stmt.cc", "src/flpr/LL_Stmt_Src.cc"],
  [("division at semicolons", "Logical_Line::init_stmts"), ("statement list", "LL_Stmt_Src::advance, Logical_File::make_stmts"), ("copying", "Logical_Line::operator=")],
  ["Logical_Line::stmts", "Logical_File::ll_stmts"])
exec(open(os.path.join(V, "tools", "meta2.py")).read()) if os.path.exists(os.path.join(V, "tools", "meta2.py")) else None
NA = []
if os.path.exists(os.path.join(V, "tools", "na.json")):
    NA = json.load(open(os.path.join(V, "tools", "na.json")))
with open(V + "/properties.jsonl", "w") as f:
    for p in ALL:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
checks = []
for p in ALL:
    if p["id"] not in props.PROPS:
        continue
    q = props.PROPS[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
        technique="bounded symbolic execution of the LLVM bitcode of /repo's sources, decided by z3, counterexamples replayed natively",
        level="model_checking",
        level_note="Holds for every input within the stated bounds (%s); outside: %s. Trusts the engine's semantics of LLVM IR, its models of libstdc++ list/stream/strtol primitives and the harness's reference; counterexamples are believed only after a native replay." % (q["bounds"], q["outside"])))
have = {c["property"] for c in checks}
m = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="none (no instrumentation was needed)", enable="nothing to enable: the checks compile /repo/src/flpr as it is", source_commits=[]), checks=checks,
    not_applicable=[n for n in NA if n["property"] not in have],
    notes="Every check compiles /repo's current sources to LLVM bitcode and executes a harness in harness/ symbolically with engine/sx.")
missing = [p["id"] for p in ALL if p["id"] not in have and p["id"] not in {n["property"] for n in NA}]
assert not missing, missing
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(ALL), "properties", len(checks), "checks")
