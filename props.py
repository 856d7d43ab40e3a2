# What each property's check runs: harness file, entry point, parameter sets and
# the reachability witnesses that must be seen.
COMMON_ASSUMPTIONS = [
    "clang 18 -O2 code generation (assertions enabled) stands for the build's compiler; the engine's model of LLVM IR, of malloc/free and of C++ exceptions is trusted, and every completed path sampled is re-run natively",
    "libstdc++'s compiled parts (std::list node linking, ostream insertion, strtol, <cctype> in the C locale) are replaced by the models in engine/models.cc",
    "allocation never fails; memory addresses are abstract (no behaviour depends on the numeric value of a pointer)",
]
PROPS = {}
NEST = ((0, 1), (0, 4), (1, 1), (1, 5), (2, 1), (2, 14), (3, 0), (3, 12), (4, 9), (5, 8), (5, 11), (6, 1), (7, 1), (7, 16))


PROPS["P01"] = dict(
    bounds="one line of up to 6 characters (thorough 7) over the 10 characters that matter to free form, or of 2 (thorough 3) arbitrary bytes; 2-3 short lines; files of up to 2 (thorough 3) lines from a 16-shape menu with symbolic holes; lines of 60-600 characters with a symbolic 4-character stretch; statements over 8-60 lines",
    outside="several long arbitrary lines at once; NUL and line terminators inside a line",
    runs=[
        dict(harness="h_scan.cc", entry="free_raw", args=[[0, -1, -1], [1, -1, -1], [2, -1, -1], [3, -1, -1], [4, -1, -1], [5, -1, -1], [2, 2, -1], [3, 3, -1], [2, 2, 2]], args_thorough=[[n, -1, -1] for n in range(8)] + [[4, 4, -1], [3, 3, 3]], covers=[]),
        dict(harness="h_scan.cc", entry="free_bytes", args=[[1], [2]], args_thorough=[[1], [2], [3]]),
        dict(harness="h_scan.cc", entry="free_menu", args=[[1, 0], [2, 0]], args_thorough=[[1, 0], [2, 0], [3, 1]], covers=["comment", "label", "preprocessor", "include", "literal", "flpr directive"]),
        dict(harness="h_scan.cc", entry="free_long", args=[[60, 4], [131, 4], [255, 3], [600, 2]]),
        dict(harness="h_scan.cc", entry="free_many", args=[[8], [40]], args_thorough=[[8], [40], [60]]),
    ])
PROPS["P02"] = dict(
    bounds="one line of 5-6 symbolic characters after 0-6 blanks over the 8 characters that matter to fixed form; files of up to 2 (thorough 3) lines from a 12-shape menu with symbolic holes; lines ending within 4 columns of the last column, for last columns 20 and 72",
    outside="longer arbitrary lines; tabs in the control columns (P04); NUL and line terminators inside a line",
    runs=[
        dict(harness="h_scan.cc", entry="fixed_raw", args=[[4, 0, 0], [6, 0, 0], [5, 3, 0], [5, 5, 0], [5, 6, 0]], args_thorough=[[7, 0, 0], [6, 3, 0], [7, 5, 0], [6, 6, 0], [6, 6, 72]], covers=[]),
        dict(harness="h_scan.cc", entry="fixed_menu", args=[[1, 72], [2, 72]], args_thorough=[[2, 72], [2, 0], [3, 72]], covers=["comment", "label", "preprocessor"]),
        dict(harness="h_scan.cc", entry="fixed_long", args=[[-2, 20], [-1, 20], [0, 20], [1, 20], [2, 20], [3, 20], [4, 20], [0, 72], [2, 72], [60, 72]]),
    ])
PROPS["P03"] = dict(
    bounds="one line of up to 7 (thorough 8) symbolic characters over the 9 characters that matter, without context, continued, and inside each kind of character literal; 11 realistic lines with a symbolic stretch of 4 (thorough 6) characters; literal-block markers with up to 6 symbolic characters",
    outside="longer symbolic stretches; labels of more than five digits",
    runs=[
        dict(harness="h_lines.cc", entry="line_free", args=[[n, 0, 0] for n in range(8)] + [[n, c, 1] for n in (3, 6) for c in range(3)], args_thorough=[[n, 0, 0] for n in range(9)] + [[n, c, 1] for n in (7, 8) for c in range(3)]),
        dict(harness="h_lines.cc", entry="line_free_shape", args=[[s, 4] for s in range(11)], args_thorough=[[s, n] for s in range(11) for n in (5, 6)]),
        dict(harness="h_lines.cc", entry="line_literal", args=[[1], [2]], args_thorough=[[1], [2], [3]]),
    ])
PROPS["P04"] = dict(
    bounds="lines of up to 8 symbolic characters from column 1 and of 6 (thorough 8) from columns 6 and 7, over the 9 characters that matter, in each character context; all contents of columns 1-6 over 5 characters; lines that reach past last columns 20 and 72 with 5 symbolic characters",
    outside="labels of more than five digits; statement text in the label field (only preserved, P02)",
    runs=[
        dict(harness="h_lines.cc", entry="line_fixed", args=[[0, 4, 0], [0, 8, 0], [5, 6, 0], [5, 6, 1], [5, 6, 2], [6, 6, 0], [6, 6, 1]], args_thorough=[[0, 9, 0], [5, 8, 0], [5, 8, 1], [5, 8, 2], [6, 8, 0]]),
        dict(harness="h_lines.cc", entry="line_fixed_cols", args=[[0], [1], [2], [3]]),
        dict(harness="h_lines.cc", entry="line_fixed_last", args=[[20, 0], [20, 1], [20, 2], [72, 0], [0, 0]]),
        dict(harness="h_lines.cc", entry="line_fixed_tab", args=[[]]),
    ])
PROPS["P05"] = dict(
    bounds="every sequence of up to 3 (thorough 4) lines from menus of 11 free-form and 9 fixed-form line shapes with 1-2 symbolic characters each",
    outside="longer sequences; preprocessor, include or directive lines between the lines of a continued free-form statement",
    runs=[
        dict(harness="h_lines.cc", entry="group_free", args=[[1], [2], [3]], args_thorough=[[1], [2], [3], [4]], covers=["statement group"]),
        dict(harness="h_lines.cc", entry="group_fixed", args=[[1], [2], [3]], args_thorough=[[1], [2], [3], [4]], covers=["statement group"]),
    ])
PROPS["P06"] = dict(
    bounds="statement texts with up to 5 (thorough 6) symbolic characters over 7 alphabets of 7-8 characters; each of the 148 keywords and 25 joined keywords in every letter case, alone or with a symbolic character attached; 8 kinds of preceding statement; 13 kinds of lexeme in 14 lengths up to 70",
    outside="longer symbolic stretches; form feeds",
    runs=[
        dict(harness="h_tokens.cc", entry="lex_chars", args=[[n, a] for a in range(7) for n in (1, 2, 3, 4)], args_thorough=[[n, a] for a in range(7) for n in (1, 2, 3, 4, 5, 6)]),
        dict(harness="h_tokens.cc", entry="lex_keyword", args=[[0, 100], [100, 100]]),
        dict(harness="h_tokens.cc", entry="lex_pair", args=[[0, 30]]),
        dict(harness="h_tokens.cc", entry="lex_long", args=[[k] for k in range(13)]),
        dict(harness="h_tokens.cc", entry="lex_leak", args=[[2], [3]], args_thorough=[[2], [3], [4]]),
    ])
PROPS["P07"] = dict(
    bounds="every sequence of up to 3 (thorough 4) lines from menus of 9 free-form and 6 fixed-form shapes with symbolic characters; one line of 5 (thorough 7) symbolic characters; each joined keyword split over two lines at every point",
    outside="longer sequences; character literals continued without a leading ampersand",
    runs=[
        dict(harness="h_tokens.cc", entry="pos_free", args=[[1], [2], [3]], args_thorough=[[1], [2], [3], [4]], covers=[]),
        dict(harness="h_tokens.cc", entry="pos_chars", args=[[4], [5]], args_thorough=[[5], [6], [7]]),
        dict(harness="h_tokens.cc", entry="pos_pair", args=[[0, 30]]),
        dict(harness="h_tokens.cc", entry="pos_fixed", args=[[1], [2], [3]], args_thorough=[[1], [2], [3], [4]]),
    ])
PROPS["P08"] = dict(
    bounds="compound lines of 6 (thorough 8) symbolic characters, with and without a label; every sequence of up to 4 (thorough 5) lines from a menu of 8 line kinds",
    outside="longer lines and files",
    runs=[
        dict(harness="h_tokens.cc", entry="stmt_chars", args=[[3, 0], [4, 0], [5, 0], [6, 0], [4, 1], [5, 1]], args_thorough=[[7, 0], [8, 0], [7, 1]], covers=["compound"]),
        dict(harness="h_tokens.cc", entry="stmt_file", args=[[1], [2], [3], [4]], args_thorough=[[1], [2], [3], [4], [5]]),
    ])
PROPS["P09"] = dict(
    bounds="17 layouts of one statement or compound line over 1-5 physical lines in free form and 17 in fixed form with symbolic characters, every token or token range of it, 3 replacement texts, two edits in a row; replacement by 1-4 lines; long statements of 1-24 operands",
    outside="longer edit histories on one line; other layouts; replacing or removing a token that is continued over several lines",
    runs=[
        dict(harness="h_edit.cc", entry="edit_replace_fragment", args=[[0], [1]], covers=["replaced"]),
        dict(harness="h_edit.cc", entry="edit_remove_fragment", args=[[0], [1]], covers=["removed"]),
        dict(harness="h_edit.cc", entry="edit_insert", args=[[0, 0], [1, 0], [0, 1], [1, 1]], covers=["inserted"]),
        dict(harness="h_edit.cc", entry="edit_substr", args=[[0], [1]], covers=["substring replaced"]),
        dict(harness="h_edit.cc", entry="edit_main_text", args=[[0], [1]], covers=["more lines", "fewer lines"]),
        dict(harness="h_edit.cc", entry="edit_split", args=[[0], [1]], covers=["split"]),
        dict(harness="h_edit.cc", entry="edit_remove_empty", args=[[0], [1]], covers=["removed"]),
        dict(harness="h_edit.cc", entry="edit_reflow", args=[[n, i] for n in (1, 4, 9, 13, 24) for i in (2, 20)]),
        dict(harness="h_edit.cc", entry="edit_label", args=[[]], covers=["label set"]),
        dict(harness="h_edit.cc", entry="edit_label_fixed", args=[[]], covers=["label set"]),
        dict(harness="h_edit.cc", entry="edit_comment", args=[[0], [1]], covers=["comment added"]),
    ])
PROPS["P10"] = dict(
    bounds="10 files of 2-7 lines in free form and 10 in fixed form with compound, continued, labelled and commented statements; each of 9 editing operations on every statement (and token range), and every sequence of two operations",
    outside="longer edit histories; other files; replacing the text of a statement that has comment lines between its lines (documented as not supported)",
    runs=[
        dict(harness="h_fedit.cc", entry="file_edit", args=[[o, x] for o in range(9) for x in (0, 1)], covers=["edited"]),
        dict(harness="h_fedit.cc", entry="file_edit2", args=[[o, p, 0] for o in range(9) for p in range(9) if not (o == 5 and p == 5)] + [[o, p, 1] for o in (0, 3, 4, 6, 8) for p in (1, 3, 4, 7, 8)], args_thorough=[[o, p, x] for o in range(9) for p in range(9) for x in (0, 1)], covers=["edited"]),
    ])
PROPS["P15"] = dict(
    bounds="30 contexts (program units, constructs, specification parts) each with every pair (thorough: triple) of about 72 statement kinds; labelled do-constructs with 2 (thorough 3) labelled statements; nested constructs from 8 sets of statements, 3-4 (thorough 4-5) statements deep",
    outside="longer statement sequences; statement forms outside the ~72 representatives (P14)",
    runs=[
        dict(harness="h_prgm.cc", entry="prgm_tree", args=[[c, 2] for c in range(30)], args_thorough=[[c, 3] for c in range(30)], covers=[]),
        dict(harness="h_prgm.cc", entry="prgm_labels", args=[[c, 2] for c in (0, 4, 20, 21, 22, 23, 27)], args_thorough=[[c, 3] for c in (0, 4, 20, 21, 22, 23, 27)]),
        dict(harness="h_prgm.cc", entry="prgm_nest", args=[[s, c, 3] for s, c in NEST], args_thorough=[[s, c, 4] for s, c in NEST]),
    ])
PROPS["P16"] = dict(
    bounds="80 statement beginnings each followed by 3 (thorough 4) symbolic characters from each of 6 alphabets, followed by the end of the unit, more statements or nothing; files of 2 arbitrary bytes in both forms; do labels of up to 11 digits",
    outside="longer malformed tails; NUL bytes; combinations of several malformed statements",
    runs=[
        dict(harness="h_mal.cc", entry="mal_chars", args=[[k, k + 40, 3, a, 0] for k in (0, 40) for a in range(6)] + [[0, 80, 2, a, t] for a in (0, 3) for t in (1, 2)], args_thorough=[[k, k + 8, 4, a, t] for k in range(0, 80, 8) for a in range(6) for t in (0, 1)]),
        dict(harness="h_mal.cc", entry="mal_bytes", args=[[1, 0], [2, 0], [2, 1]], args_thorough=[[2, 0], [2, 1], [3, 0], [3, 1]]),
        dict(harness="h_mal.cc", entry="mal_label", args=[[3], [6], [11]]),
    ])
G4 = [(0, 31), (31, 62), (62, 93), (93, 126)]
G8 = [(a, min(a + 16, 126)) for a in range(0, 126, 16)]
PROPS["P13"] = dict(
    bounds="each of the 126 statement parsers on: every sequence of up to 4 tokens, each token any of the scanner's (symbolic tag); every sentence of the reference grammar within 1 choice of the shortest (quick: the shortest), with any one token replaced by, or preceded by, any token, or removed; alone or between other statements on a compound line",
    outside="longer token sequences that are not one edit away from a short sentence; expressions (which FLPR only balances) are made of 21 shapes",
    runs=[
        dict(harness="h_gram.cc", entry="gram_any", args=[[0, 126, n, p] for n in (1, 2) for p in (0, 1, 2, 3)] + [[0, 126, 3, 0], [0, 126, 3, 3], [0, 126, 4, 0]], args_thorough=[[a, b, n, p] for n in (3, 4) for p in (0, 1, 2, 3) for a, b in G4] + [[a, b, 5, 0] for a, b in G4]),
        dict(harness="h_gram.cc", entry="gram_mut", args=[[a, b, 0, p, w, 1] for p in (0, 1, 2, 3) for w in (0, 1, 2) for a, b in G4], args_thorough=[[a, a + 2, 1, p, w, 1] for p in (0, 1, 2, 3) for w in (0, 1, 2) for a in range(0, 126, 2)]),
    ])
PROPS["P14"] = dict(
    bounds="every sentence of the reference grammar of the 126 statements within 3 choices of the shortest (thorough: 4), and within 2 choices (thorough: 3) with any one of its names being any keyword; every sentence within 1 (thorough: 2) choices with any one token replaced by, or preceded by, any token of the scanner's (symbolic tag), or removed",
    outside="sentences further from the shortest one; that a wrong statement is refused is only decided within one token of a right one",
    runs=[
        dict(harness="h_gram.cc", entry="gram_ok", args=[[a, b, 3, 0, 0, 2] for a, b in G8] + [[a, b, 2, 0, 1, 2] for a, b in G4], args_thorough=[[a, a + 1, 4, 0, 0, 2] for a in range(0, 126)] + [[a, a + 4, 3, 0, 1, 2] for a in range(0, 126, 4)]),
        dict(harness="h_gram.cc", entry="gram_kind", args=[[a, b, 2, 0, y, 2] for a, b in G4 for y in (0, 1)], args_thorough=[[a, b, 3, 0, y, 2] for a, b in G4 for y in (0, 1)]),
        dict(harness="h_gram.cc", entry="gram_mut", args=[[a, b, 1, 0, w, 2] for w in (0, 1) for a, b in G8] + [[a, b, 0, 0, 2, 2] for a, b in G4], args_thorough=[[a, a + 2, 2, 0, w, 2] for w in (0, 1, 2) for a in range(0, 126, 2)]),
    ])
PROPS["P11"] = dict(
    bounds="every line made of up to 4 (thorough 6) characters in free form and of 8 control columns followed by 4 (thorough 6) characters in fixed form, in or out of a character context, moved to each of 13 columns; comments in fixed form; lines that reach the last column of fixed form; four programs with every indented construct in both forms, 6 tables and 4 original layouts; 10 ways of writing a statement or what is before it, in 4 places, with symbolic characters",
    outside="text that indentation moves beyond the last column of fixed form; tabs in the indentation; other programs",
    runs=[
        dict(harness="h_indent.cc", entry="indent_free", args=[[3, 1, 0], [2, 1, 1], [3, 1, 2]], args_thorough=[[4, 2, 0], [4, 1, 1], [4, 2, 2]], covers=["statement"]),
        dict(harness="h_indent.cc", entry="indent_fixed", args=[[3, 1, 0], [2, 1, 1], [3, 1, 2]], args_thorough=[[4, 2, 0], [4, 2, 1], [4, 2, 2]], covers=["statement"]),
        dict(harness="h_indent.cc", entry="indent_fixed_comment", args=[[2, 9]], args_thorough=[[4, 9]], covers=["comment"]),
        dict(harness="h_indent.cc", entry="indent_fixed_long", args=[[6]], args_thorough=[[9]]),
        dict(harness="h_indent.cc", entry="indent_tables", args=[[]]),
        dict(harness="h_indent.cc", entry="indent_logical", args=[[]]),
        dict(harness="h_indent.cc", entry="indent_prog", args=[[p, f] for p in range(4) for f in (0, 1)], covers=["indented"]),
        dict(harness="h_indent.cc", entry="indent_deco", args=[[h, f] for h in range(10) for f in (0, 1)], covers=["indented"]),
    ])
PROPS["P12"] = dict(
    bounds="fixed-form files: one line of 6 control columns and up to 5 (thorough 6) characters; a statement on two lines of 2 (thorough 3) characters each with 4 kinds of line between them, and on three lines; lines that reach or cross the last column, continued or not; files of 1-2 (thorough 3) statements of 8 forms with 7 kinds of line before them; conversion followed by indentation",
    outside="preprocessor, include and directive lines between the lines of one statement; a comment beyond the last column of a line that ends inside a character literal, which is not kept; tabs in the control columns; ampersands outside of character literals",
    runs=[
        dict(harness="h_conv.cc", entry="conv_line", args=[[4], [5]], args_thorough=[[6]], covers=["converted"]),
        dict(harness="h_conv.cc", entry="conv_two", args=[[2, 2]], args_thorough=[[3, 2], [2, 3], [3, 3]], covers=["converted"]),
        dict(harness="h_conv.cc", entry="conv_three", args=[[2, h] for h in range(4)], args_thorough=[[3, h] for h in range(4)], covers=["converted"]),
        dict(harness="h_conv.cc", entry="conv_long", args=[[2, 1, 0], [2, 2, 0], [2, 1, 1]], args_thorough=[[3, 3, 0], [2, 2, 1], [3, 3, 1]], covers=["converted"]),
        dict(harness="h_conv.cc", entry="conv_file", args=[[1, 1], [2, 0]], args_thorough=[[2, 1], [3, 0]], covers=["converted"]),
        dict(harness="h_conv.cc", entry="conv_indent", args=[[0]], args_thorough=[[1]], covers=["converted"]),
        dict(harness="h_conv.cc", entry="conv_free", args=[[3]], args_thorough=[[4]]),
    ])

PROPS["P17"] = dict(
    bounds="16 frames (program units of every kind, modules, internal procedures, interface bodies, several units in a file) each with every pair (thorough: triple) of about 40 statement kinds",
    outside="longer statement sequences; submodules (no parser for them); the boundary between the implicit part and declarations where parameter, format or entry statements stand between them",
    runs=[dict(harness="h_prgm.cc", entry="prgm_views", args=[[c, 2] for c in range(16)], args_thorough=[[c, 3] for c in range(16)])])
PROPS["P18"] = dict(
    bounds="procedures of 5 kinds with all parts, none, or any subset of them, comments, labels and compound lines, and 5 forms of the end statement; every edit (insertion at every place of every part, renaming, completing the end statement, replacement), and every sequence of 2 edits (thorough: on all kinds and 3 edits)",
    outside="insertion into the part of internal procedures; longer sequences; names of more than 5 characters",
    runs=[dict(harness="h_proc.cc", entry="proc_edit", args=[[k, s, 1, -1, 1] for k in range(5) for s in (0, 1)] + [[k, 2, 1, -1, 0] for k in range(5)] + [[k, 1, 2, -1, 0] for k in range(5)] + [[k, 0, 2, -1, 0] for k in (0, 3)], args_thorough=[[k, 0, 2, -1, 0] for k in range(5)] + [[k, 2, 1, -1, 1] for k in range(5)] + [[k, 1, 3, -1, 0] for k in range(5)] + [[k, s, 2, -1, 1] for k in range(5) for s in (0, 1)], time=600)])

PROPS["P19"] = dict(
    bounds="every sequence of 3 operations on a list that is empty or has two elements (thorough: 4), with symbolic values; every sequence of 3 operations on every range of a list of 3 elements (thorough: 4)",
    outside="longer sequences; element types other than int; Safe_List::remove_if with predicates that change what they are given; SL_Range::update_end (cannot be instantiated)",
    runs=[
        dict(harness="h_list.cc", entry="list_make", args=[[]]),
        dict(harness="h_list.cc", entry="list_ops", args=[[0, 3], [1, 3]], args_thorough=[[0, 4], [1, 4]]),
        dict(harness="h_list.cc", entry="list_ranges", args=[[3, 2], [2, 3], [3, 3]], args_thorough=[[4, 3], [2, 4]]),
    ])
PROPS["P20"] = dict(
    bounds="every tree of up to 3 nodes (or none) and every sequence of up to 3 operations (new branches anywhere, removal, grafting, swapping of nodes and trees, moving, clearing) with symbolic values (thorough: 4 operations); every cursor movement of up to 3 steps from every node after each of them",
    outside="longer sequences; move-assignment of a node that is in a tree; swapping a node with one below it; a tree that was given away with graft(Tree &&); Tree(value const &), which cannot be instantiated",
    runs=[
        dict(harness="h_tree.cc", entry="tree_make", args=[[]]),
        dict(harness="h_tree.cc", entry="tree_ops", args=[[0, 2], [1, 2], [3, 2], [0, 3], [1, 3]], args_thorough=[[3, 3], [1, 4]]),
    ])

PROPS["P21"] = dict(
    bounds="statements of up to 5 tokens (symbolic choice of parentheses, brackets, names) alone, first, last and between others on a compound line: bracket matching in both directions and for every pair; every sequence of 2 movements (thorough: 3, 6 tokens) with every lookahead of up to 3 tokens after each; every failed expectation",
    outside="streams over more than one statement other than through LL_TT_Range; lookahead of more than 3 tokens",
    runs=[
        dict(harness="h_stream.cc", entry="stream_match", args=[[3, p, 3] for p in range(4)] + [[5, 0, 3], [4, 0, 5]], args_thorough=[[6, 0, 3], [5, 3, 5]]),
        dict(harness="h_stream.cc", entry="stream_moves", args=[[n, p, 2] for n in (0, 1, 3) for p in (0, 1, 3)], args_thorough=[[4, p, 3] for p in (0, 3)]),
        dict(harness="h_stream.cc", entry="stream_expect", args=[[0], [1]]),
    ])
PROPS["P22"] = dict(
    bounds="every choice and order of registration of five extensions (two specification and three executable ones that overlap), programs of up to 2 specification and 2 executable statements (thorough: 2 and 3), plain, in constructs, as labelled ends of loops and on compound lines; every tag from 0 to beyond the client tags, with any of three client tags registered with any type",
    outside="extensions of kinds of statement other than those that can be registered; extension parsers that throw",
    runs=[
        dict(harness="h_ext.cc", entry="ext_prog", args=[[1, 1, 0], [0, 2, 0], [0, 2, 1], [0, 1, 2], [0, 2, 3], [2, 0, 1], [1, 1, 2]], args_thorough=[[2, 1, 2], [0, 2, 2], [1, 2, 0], [1, 1, 1], [2, 2, 0], [0, 3, 1], [0, 3, 2], [0, 3, 3]], covers=["accepted", "rejected"]),
        dict(harness="h_ext.cc", entry="ext_tags", args=[[0, 2000]]),
    ])
PROPS["P23"] = dict(
    bounds="files with one of 8 arrangements of procedures (all kinds, internal, module and separate module procedures, two in a file), each with any of 7 use statements (thorough: two of them), declarations or none, any one of 19 executable statements (thorough: two), in constructs or not, on compound lines, with comments; both source forms",
    outside="other statements; calls in more than two places; several modules; main programs of the application itself (argument handling)",
    runs=[
        dict(harness="h_module.cc", entry="module_file", args=[[0, f, 0] for f in range(7)] + [[1, 0, 0], [1, 2, 0], [0, 0, 2], [0, 7, 4]], args_thorough=[[0, 0, 1], [0, 0, 3], [0, 2, 1], [0, 4, 3], [1, 0, 1], [1, 4, 2], [0, 6, 1]]),
    ])

PROPS["P24"] = dict(
    bounds="files with one of 9 arrangements of procedures (all kinds, prefixes, internal, module and separate module procedures, two in a file), declarations or none, up to 2 (thorough: 2-3) of 16 kinds of executable statement (returns of every kind, labels, statements that look like returns), in a row, within constructs, on compound lines with comments, on continued lines with comments between; both source forms",
    outside="alternate returns; entry statements; names that make the new lines longer than a line; the application's argument handling",
    runs=[
        dict(harness="h_caliper.cc", entry="caliper_prog", args=[[0, f, 0, 1] for f in (1, 3, 4, 5, 8)] + [[0, 0, 0, 2], [0, 0, 1, 1], [0, 4, 1, 1], [0, 0, 2, 2], [0, 0, 3, 1], [1, 0, 3, 1], [0, 6, 0, 1], [0, 7, 0, 1], [1, 2, 0, 2], [1, 0, 1, 1]], args_thorough=[[x, f, 0, 2] for x in (0, 1) for f in range(9)] + [[x, f, 1, 2] for x in (0, 1) for f in (0, 2, 3, 4, 7)] + [[0, f, 2, 2] for f in (0, 2, 3, 4)] + [[x, f, 3, 2] for x in (0, 1) for f in (0, 4)] + [[0, 0, 0, 3]]),
    ])
PROPS["P25"] = dict(
    bounds="files of both forms with one line (on up to 3 physical lines) of 1-2 (thorough 3) statements of 6 kinds, 6 kinds of separator (with empty statements, continuations and comments between), 6 kinds of end (comments, semicolons), with a label or leading semicolon or not, 2 indentations; 8 combinations of the application's transformations (thorough: all 16)",
    outside="several compound lines in a file; lines longer than 72 characters; the application's argument handling",
    runs=[
        dict(harness="h_format.cc", entry="format_file", args=[[0, 1, 0], [0, 1, 7], [0, 2, 1], [0, 2, 6], [1, 1, 7], [1, 2, 2], [1, 2, 9], [1, 1, 15]], args_thorough=[[0, 2, w] for w in range(8)] + [[1, 2, w] for w in range(16)] + [[0, 3, w] for w in (1, 2, 7)] + [[1, 3, w] for w in (1, 2, 15)]),
    ])
PROPS["P26"] = dict(
    bounds="every file name of up to 6 (thorough: 8) characters over the letters of the known extensions and others, every requested form; 11 kinds of text (procedures, continued lines, comments, preprocessor lines and directives, empty files, texts that do not parse or are no Fortran text) in both forms with any letter in a name, with and without a newline at the end, read in each of 6 ways, after any other of the texts, and moved in any state",
    outside="names with other characters; read errors within a file; files with carriage returns",
    runs=[
        dict(harness="h_read.cc", entry="read_kind", args=[[n] for n in range(1, 6)], args_thorough=[[6], [7]], covers=["read", "refused"]),
        dict(harness="h_read.cc", entry="read_same", args=[[f, w] for f in (0, 1) for w in range(11)]),
        dict(harness="h_read.cc", entry="read_again", args=[[f, w] for f in (0, 1) for w in range(11) if w != 5], covers=["logical file"]),
        dict(harness="h_read.cc", entry="read_moved", args=[[f, w] for f in (0, 1) for w in range(11)]),
    ])
PROPS["P27"] = dict(
    bounds="lines of both forms of 6 kinds (compound with empty statements and literals, labelled and continued with comments between, a literal over two lines, comments, preprocessor lines, stray semicolons) with any of three letters in a name; copied in 7 ways (construction, assignment to another line and to itself, moves, a copied list, a growing vector); 10 edits of the line or of its copy",
    outside="other lines; copies of copies after several edits",
    runs=[
        dict(harness="h_copy.cc", entry="copy_line", args=[[f, w, h] for f in (0, 1) for w in range(6) for h in range(7)]),
    ])
