P("P09", "Editing a line changes exactly what the edit says",
  "Replacing, inserting, removing, splitting, re-flowing or labelling text of one logical line, or adding a trailing comment, yields a line whose tokens are those before the edit with exactly the requested change applied: all other tokens, the label and every comment are kept in order, the statement ranges and every token's position agree with the new text, and the line, when printed, reads back (as free-form source) as that same statement or statements.",
  ["inputs", "histories"], "every logical line (any layout over physical lines, with labels, comments and compound statements), every token or token range of it, every replacement text, and edits one after another",
  "The tests make one edit on one layout each; positions and continuation marks break for particular combinations of layout, comment and edited place, and only the next edit shows it.",
  ["src/flpr/Logical_Line.cc", "src/flpr/File_Line.cc"],
  [("replacement of a token or a token range", "Logical_Line::replace_fragment, replace_stmt_substr, insert_text_before/after, remove_fragment, append"), ("replacement of the whole text", "Logical_Line::replace_main_text"), ("splitting", "Logical_Line::split_after"), ("re-flow", "Logical_Line::text_from_frags"), ("continuation marks and labels of a physical line", "File_Line::make_continued, make_uncontinued, set_label")],
  ["Logical_Line::fragments, stmts, label, layout", "the printed line read again"])
P("P10", "Editing a statement of a file leaves the rest of the file alone",
  "Isolating, splitting off, adding, replacing, extending or labelling a statement of a file changes that statement exactly as asked and nothing else: every other statement keeps its tokens, label and order, every comment, preprocessor and include line survives in place, the statement list stays in step with the lines (compound numbering, prefix lines, owning line), and the printed file reads back as exactly these statements.",
  ["inputs", "histories"], "every file with compound, continued, labelled and commented statements, every statement of it, and every sequence of such edits",
  "The tests apply single edits to small files; a statement list that is out of step with its lines is noticed only by a later edit of a neighbouring statement.",
  ["src/flpr/Logical_File.cc", "src/flpr/Logical_Line.cc", "src/flpr/LL_Stmt.cc"],
  [("isolation and splitting of compound statements", "Logical_File::isolate_stmt, split_compound_before, split_compound_after"), ("insertion", "Logical_File::emplace_ll_stmt, emplace_ll_stmt_after_prefix"), ("text changes", "Logical_File::replace_stmt_text, replace_stmt_substr, insert_text_after, append_stmt_text"), ("labels", "Logical_File::set_stmt_label")],
  ["Logical_File::lines, ll_stmts", "the printed file read again"])
P("P11", "Indenting changes only the layout of a file, and sets it as asked",
  "Indenting a file by any indent table moves each statement that is first on its line to the column given by the table's entries for the program parts and constructs it is in (after its label, if that is wider; fixed-form lines count from column 7), and continued lines by the continuation offset; statements, labels, tokens, comments, preprocessor, include, directive and literal lines survive, and the file reads back as the same statements; the result tells whether any text changed; a second run changes nothing. The same holds for one line or statement. A line that must not move (a fixed-form continuation, a comment marked in column 1, a line ending inside a fixed-form literal) stays.",
  ["inputs"], "every file in both source forms, every indent table, every original layout",
  "No test of the repository indents anything; damage needs a particular combination of form, comment mark, label width, continuation and column.",
  ["src/flpr/File_Line.cc", "src/flpr/Logical_Line.cc", "src/flpr/LL_Stmt.cc", "src/flpr/Parsed_File.hh", "src/flpr/Indent_Table.cc", "src/flpr/Indent_Table.hh"],
  [("moving the text of a line", "File_Line::set_leading_spaces, get_leading_spaces"), ("moving a statement", "Logical_Line::set_leading_spaces, LL_Stmt::set_leading_spaces"), ("walk over the program tree", "Parsed_File::indent_recurse_"), ("tables", "Indent_Table")],
  ["Parsed_File::indent", "the printed file and the same file read again"])
P("P12", "Conversion from fixed to free form keeps every statement and comment",
  "Converting a fixed-form file to free form yields, for every file that keeps to the fixed-form columns, a file whose printed text reads (as free form) as the same statements with the same labels and tokens, the same comments, and the same preprocessor, include and directive lines, line by line; tokens and literals continued over any number of lines stay whole; the lines in memory have the classes, marks, columns and tokens a fresh read of that text would give; converting again changes nothing, and a free-form file is left alone.",
  ["inputs"], "every fixed-form file: labels, zeros and marks in column 6, continued names and literals, comment marks, text at and beyond the last column",
  "Tests convert a few plain lines; the source forms differ in the control columns, at the last column, and inside tokens that go on on the next line.",
  ["src/flpr/Logical_File.cc", "src/flpr/File_Line.cc"],
  [("conversion", "Logical_File::convert_fixed_to_free"), ("reading of both forms", "Logical_File::scan_fixed, scan_free")],
  ["Logical_File::convert_fixed_to_free", "the printed file read again"])
P("P13", "A parsed statement's tree covers exactly its tokens, in order",
  "Whatever a statement parser accepts, the tree it returns has each token of that statement exactly once, as a leaf, in source order; each inner node covers exactly the tokens of its branches, a branch knows its parent, and the whole statement up to its end is consumed. This holds whether the statement stands alone or between other statements on a compound line, and nothing of a neighbouring statement is ever taken in.",
  ["inputs"], "every token sequence given to every statement parser, in every place on a line",
  "Tests look at the tag of the tree for hand-written statements; a token dropped from a tree, or taken from the next statement, only shows for the particular optional part and the particular neighbour.",
  ["src/flpr/parse_stmt.cc", "src/flpr/Stmt_Parsers.hh", "src/flpr/Stmt_Tree.cc", "src/flpr/TT_Stream.hh", "src/flpr/LL_TT_Range.hh"],
  [("combinators", "Stmt_Parsers.hh seq, alts, opt, star, list, neg, peek, eol"), ("covering", "Stmt_Tree.cc cover_branches"), ("reading and giving back of tokens", "TT_Stream::digest, consume, rewind")],
  ["Stmt::parse_stmt_dispatch, the tree's nodes and token ranges"])
P("P14", "Statements are recognised as what they are, and only then",
  "Each of the 126 kinds of statement is recognised by its parser in every form the language's grammar gives it (names may be spelled like keywords), gets the tag of its kind, and each part of it (type, attribute, entity, argument list, expression...) has the node of its kind over the right tokens; among the action statements and among the specification statements the right kind is picked; and what a parser accepts is a statement of its kind by that grammar, up to the documented simplification that expressions and control lists are only balanced.",
  ["inputs"], "every statement of the language and every token sequence near one",
  "The tests hold a few sentences per statement; the grammar has some 190 rules with optional parts and lists, and keywords that are also names.",
  ["src/flpr/parse_stmt.cc", "src/flpr/Stmt_Parsers.hh", "src/flpr/Syntax_Tags.hh", "src/flpr/Syntax_Tags_Defs.hh"],
  [("rules of the grammar", "parse_stmt.cc"), ("choice between statements", "action_stmt, other_specification_stmt, is_action_stmt, parse_stmt_dispatch"), ("keywords as names", "Syntax_Tags::is_name, Stmt_Parsers.hh name()")],
  ["Stmt::parse_stmt_dispatch, is_action_stmt, the tree's tags"])
P("P15", "Statements are nested into the right program units and constructs",
  "Parsing a well-formed sequence of statements succeeds, and the tree has every statement exactly once and in source order, inside exactly the program units, parts and constructs (with their extents and kinds) the language's nesting rules give it, including constructs that share a terminating label; a sequence that cannot be completed into program units is rejected, without a crash, and leaves no half-built tree. Each statement's hook leads to its own node.",
  ["inputs"], "every sequence of statements of a file, in every context",
  "The tests parse one example of each construct; which alternative is tried, given back or ended depends on the neighbouring statements.",
  ["src/flpr/Prgm_Parsers_impl.hh", "src/flpr/Prgm_Parsers_utils.hh", "src/flpr/Parsed_File.hh", "src/flpr/Prgm_Parsers.hh", "src/flpr/Prgm_Tree.hh"],
  [("program-unit and construct parsers", "Prgm::Parsers, Prgm_Parsers_impl.hh"), ("labels of do-constructs", "Label_Stack, State"), ("matching and giving back", "Prgm_Parsers_utils.hh"), ("linking of statements and tree", "Parsed_File::parse_tree, link_")],
  ["Parsed_File::parse_tree, statements"])
P("P16", "No input makes reading, parsing or printing crash, hang or half-succeed",
  "Whatever a file contains, reading it, parsing it and printing it terminates without a crash, assertion, uncaught exception or invalid memory access; the file is either rejected (and has no tree) or accepted with every statement and every token of it in the tree in order.",
  ["inputs", "faults"], "every file, however malformed or truncated",
  "Tests hold well-formed source; the failures need one missing parenthesis, digit or statement in the right place.",
  ["src/flpr/parse_stmt.cc", "src/flpr/Prgm_Parsers_impl.hh", "src/flpr/Parsed_File.hh", "src/flpr/Logical_File.cc", "src/flpr/Stmt_Parsers.hh"],
  [("recovery of the statement parsers", "parse_stmt.cc consume_until_break, consume_parens, TT_Stream"), ("end of input", "Prgm::Parsers, LL_Stmt_Src"), ("rejection", "Parsed_File::operator bool, Logical_File::has_scan_file")],
  ["Parsed_File::read_file, parse_tree, operator bool", "operator<< for the lines"])
P("P17", "Every procedure is visited once and divided into its parts",
  "Procedure_Visitor calls the action for every procedure of a file (main program, external, module, separate module and internal procedures, but not interface bodies) exactly once, each before the ones inside it, says rightly whether it is internal or in a module, and reports a change exactly if an action did. Procedure::ingest then gives for each of them its kind, name and labels and divides all its statements, in order and without loss or overlap, into the first statement, use, import, implicit and declaration statements, execution part, contained procedures and end statement.",
  ["inputs"], "every file, with any parts of its procedures missing",
  "The tests have no test of Procedure or Procedure_Visitor at all, and which parts exist and which neighbours a procedure has is combinatorial.",
  ["src/flpr/Procedure.hh", "src/flpr/Procedure_Visitor.hh", "src/flpr/Range_Partition.hh", "src/flpr/Prgm_Parsers_impl.hh"],
  [("division into regions", "Procedure::ingest, Range_Partition::append"), ("walk over program units", "Procedure_Visitor::visit, visit_module_, visit_procedure_"), ("access", "Procedure::range, begin, end, last, has_region, name, scan_out_labels")],
  ["Procedure and Procedure_Visitor's public interfaces"])
P("P18", "Edits through a procedure's view show in the view and the file alike",
  "Inserting a statement before any place of any part of a procedure (above or under the comments there), renaming the procedure, completing its end statement and replacing a statement change the file in exactly that way: other statements, labels and comments stay as and where they are, the parts of the view show the change in the part it was made in, also after further edits, and reading the printed file again gives a procedure with the same parts and name.",
  ["inputs", "histories"], "every procedure and sequence of edits",
  "An edit that leaves the view's bookkeeping wrong only shows in a later edit or for particular missing parts; no test edits through Procedure.",
  ["src/flpr/Procedure.hh", "src/flpr/Range_Partition.hh", "src/flpr/Logical_File.cc", "src/flpr/LL_Stmt.hh"],
  [("insertion", "Procedure::emplace_stmt, Range_Partition::insert, Logical_File::emplace_ll_stmt, emplace_ll_stmt_after_prefix"), ("renaming", "Procedure::rename, name"), ("end statement", "Procedure::complete_end_stmt, Logical_File::append_stmt_text"), ("replacement", "Procedure::replace_stmt")],
  ["Procedure's public interface, the printed file"])
P("P19", "A Safe_List and its ranges stay right under every sequence of edits",
  "Safe_List (the list behind a file's lines and statements) behaves as a sequence: every insertion, removal, splice, swap, move, copy and clear leaves exactly the elements, order, size and end it should, iterators to elements that were not removed stay valid and follow their elements from list to list. An SL_Range keeps denoting the elements between its ends under insertion and removal through it, and its views (first, last, size, iteration) agree.",
  ["inputs", "histories"], "every sequence of operations with every element values",
  "The tests perform a handful of fixed sequences with distinct non-default values; the sentinel element and default values only matter in combination.",
  ["src/flpr/Safe_List.hh"],
  [("the end of a list", "Safe_List's sentinel, clear, remove, remove_if, swap, move"), ("ranges", "SL_Range, push_front, push_back, emplace, begin, end, last")],
  ["Safe_List's and SL_Range's public interfaces"])
P("P20", "Trees, their nodes and cursors stay linked under every sequence of edits",
  "Under any sequence of insertion, removal, grafting, swapping, moving and clearing, a Tree has exactly the nodes it should, in order; every node knows its parent, its own place and its branches; sizes, root, leaf and neighbour queries agree with that; every cursor movement leads to the node it should or, in the try_ form, reports that it cannot without moving off the tree; and trees that were given away or emptied are empty ones that can be used, checked and printed.",
  ["inputs", "histories"], "every sequence of operations on every tree",
  "A node that is moved must be linked again from both sides; the tests look at a few movements in a few fixed trees.",
  ["src/flpr/Tree.hh"],
  [("linking", "Tree_Node::link, emplace, swap, check"), ("trees", "Tree::graft, graft_front, graft_back, swap, clear, size, empty"), ("movement", "Tree_Cursor, Const_Tree_Cursor: up, down, next, prev, try_*")],
  ["Tree's, Tree_Node's and the cursors' public interfaces"])

P("P21", "A token stream reads exactly its statement, however it is moved",
  "A token stream over a statement (alone or anywhere on a compound line) shows for every position the current, the next and any later token, the last one, and nothing from neighbouring statements; consuming, giving back, rewinding to a mark, moving to or before the matching closing bracket, back to the opening one, and over a bracketed expression end at the position bracket counting gives, or report that there is none; captures cover what was consumed between their ends; an expectation that is not met is reported and consumes nothing.",
  ["inputs", "histories"], "every token sequence, position and sequence of movements",
  "No test looks ahead near the end of a statement that has a neighbour on its line, or matches brackets from within.",
  ["src/flpr/TT_Stream.hh", "src/flpr/TT_Stream.cc", "src/flpr/LL_TT_Range.hh"],
  [("lookahead", "TT_Stream::peek, peek_tt, peek_back, curr"), ("movement", "TT_Stream::consume, put_back, rewind, move_to_close_paren, move_before_close_paren, move_to_open_paren, ignore_bracket_expr"), ("captures", "TT_Stream::capture_begin, capture_end")],
  ["TT_Stream's public interface"])
P("P22", "Registered extensions add statements without changing the language",
  "A client's extension parsers are asked in their order and only for statements that are not the language's; what they recognise is accepted in the places of its kind (specification, declaration, execution, the action of an if statement, the end of a labelled loop), gets its tag there and again when its tree is rebuilt; nothing else changes, and clearing the extensions gives back the plain language. A client's tag is labelled, typed and may be a name as it was registered, and every built-in tag has the label and class of its kind.",
  ["inputs", "configurations"], "every registration, order and program; every tag value",
  "No test registers a parser extension; client tags are tested for a single label.",
  ["src/flpr/parse_stmt.cc", "src/flpr/Stmt_Parser_Exts.hh", "src/flpr/Stmt_Parser_Exts.cc", "src/flpr/Syntax_Tags.cc", "src/flpr/LL_Stmt.cc"],
  [("extension points", "Stmt_Parser_Exts::parse_action_ext, parse_other_specification_ext, parse_decl_ext"), ("rebuilding", "LL_Stmt::stmt_tree, parse_stmt_dispatch"), ("tags", "Syntax_Tags::register_ext, type, label, is_name, is_keyword")],
  ["Parsed_File::parse_tree, LL_Stmt::stmt_tree, Syntax_Tags"])
P("P23", "The module application adds a use statement exactly where it is needed",
  "Given a module and subroutine names, the module application adds `use <module>` to exactly those procedures (main, external, module and separate module procedures, in both source forms) that call one of these subroutines (by name or as the last part of a component reference, in any letter case, also within if statements) and do not use the module yet, after their use statements and aligned with what follows; nothing else of the file changes, its result tells whether anything was added, and the output reads back as these statements.",
  ["inputs"], "every file, whatever its procedures call and use",
  "The application has no tests; the place of the new statement depends on which parts of the procedure are missing and what shares its line.",
  ["apps/module_base.cc", "apps/module_base.hh", "src/flpr/Procedure.hh", "src/flpr/Procedure_Visitor.hh", "src/flpr/Logical_File.cc"],
  [("which procedures", "Module_Action::operator(), Call_Set"), ("existing use statements", "has_use_stmt"), ("insertion", "Procedure::emplace_stmt, LL_Stmt::set_leading_spaces")],
  ["Procedure_Visitor::visit with Module_Action, write_file"])
P("P24", "The caliper application instruments the entry and every exit of a procedure",
  "The caliper application puts a call naming the procedure before the first executable statement of exactly the procedures that have an execution part and are neither internal nor pure or elemental, and a second call on every way out: in place of a final return statement (keeping its label) or after the last statement; every other return, also within if statements, becomes a branch to it with the label it has or an unused one. Nothing else changes, in both source forms; the result tells whether anything was done, and the output is a program with exactly these statements.",
  ["inputs"], "every file, whatever returns, labels and parts its procedures have",
  "The application has no tests; it combines insertion, replacement within a statement and setting of labels on the same statements, also on shared lines.",
  ["apps/caliper.cc", "src/flpr/Procedure.hh", "src/flpr/Procedure_Visitor.hh", "src/flpr/Logical_File.cc", "src/flpr/Logical_Line.cc"],
  [("which procedures", "caliper_procedure, exclude_procedure"), ("returns", "count_return_stmts, convert_return_stmts"), ("labels", "Procedure::scan_out_labels, Logical_File::set_stmt_label")],
  ["Procedure_Visitor::visit with caliper_procedure, write_file"])
P("P25", "The format application changes the layout of a file and nothing else",
  "Whatever transformations the format application is asked for (one statement per line, removal of empty statements, indentation, conversion to free form), the file has the same statements, labels and comments afterwards, each once, in memory as in the text; what was asked for is done completely; a changed file is written, and one that is not changed is written as it was or not at all; nothing is done that was not asked for.",
  ["inputs", "configurations"], "every file and every combination of transformations",
  "The application has no tests; splitting and removing rearrange tokens, positions and continued lines at the same time.",
  ["apps/flpr_format_base.cc", "apps/flpr_format_base.hh", "src/flpr/Logical_Line.cc", "src/flpr/Logical_File.cc", "src/flpr/File_Line.cc"],
  [("transformations", "flpr_format_file, remove_empty_stmts, split_compound_stmts"), ("layout", "Logical_Line::split_after, remove_empty_statements, text_from_frags"), ("options", "Options")],
  ["flpr_format_file, write_file"])
P("P26", "A file object holds exactly the file that was read, in its form",
  "Whichever way a text is read (by name, from a stream, from a buffer, at construction or later), the same lines, statements and tree result, in the form that was asked for or else follows from the extension of the name; a file that is missing, whose form is unknown or that cannot be scanned or parsed is reported so; nothing stays of what the object held before, and an object that was moved, in whatever state, is the same file.",
  ["inputs", "histories"], "every content, name, way of reading and history of reads",
  "Tests read each file once into a new object and by one way; names, missing files, repeated reads and moves are not sampled.",
  ["src/flpr/File_Info.cc", "src/flpr/Logical_File.cc", "src/flpr/Logical_File.hh", "src/flpr/Parsed_File.hh", "src/flpr/Safe_List.hh", "src/flpr/Tree.hh"],
  [("form", "File_Info, file_type_from_extension"), ("reading", "Logical_File::read_and_scan, scan, make_stmts"), ("parsed file", "Parsed_File, read_file, prefetch_statements, prefetch_parse_tree")],
  ["Logical_File::read_and_scan, Logical_File::scan, Parsed_File"])
P("P27", "A copied or moved line is the same line and lives on its own",
  "A logical line that is copied or moved - by construction, assignment (to another line or to itself), with a list or by a growing vector - has the same text, label, flags, tokens, positions and statements, the statements being ranges of its own tokens; an edit of either line gives what it gives on a line of that text that was never copied, leaves the other as it was, and a line that was moved from can be given a new value.",
  ["inputs", "histories"], "every line, way of copying and edit",
  "The iterators of the statements have to be moved over to the copied tokens; a mistake shows only once the original is edited or gone.",
  ["src/flpr/Logical_Line.cc", "src/flpr/Logical_Line.hh", "src/flpr/Safe_List.hh", "src/flpr/Token_Text.hh", "src/flpr/File_Line.hh"],
  [("copies", "Logical_Line copy and move construction and assignment, rebase"), ("edits", "replace_fragment, insert_text_after, split_after, remove_empty_statements, replace_main_text, replace_stmt_substr, append_comment, clear")],
  ["Logical_Line"])
