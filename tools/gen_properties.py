#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("P01", "Unmodified source is written back byte for byte",
 "Scanning a well-formed source file and writing its lines back without editing them reproduces the input: in free form every line byte for byte, in fixed form every line byte for byte except tabs inside the first six columns (expanded) and text past the configured last column (kept as trailing commentary, dropped only when blank). Every input line belongs to exactly one logical line, in input order, and carries its own line number. Scanning is a pure function of the text: scanning the same lines again, or after any other file, gives the same result.",
 ["inputs", "histories"],
 "All lines over the characters that Fortran treats specially, and all files made of up to N representative lines (code, continued code, open character contexts, labels, comments, blanks, preprocessor, include, tool directives).",
 "The tests look at a dozen hand-picked lines one at a time and never write a file back; the guarantee ranges over every line and every succession of lines.",
 ["src/flpr/File_Line.cc", "src/flpr/Logical_File.cc", "src/flpr/Logical_Line.cc"],
 [("line analysis into left/main/right fields", "src/flpr/File_Line.cc:analyze_free/analyze_fixed"),
  ("grouping physical lines into logical lines", "src/flpr/Logical_File.cc:scan_free/scan_fixed"),
  ("writing", "src/flpr/File_Line.cc:operator<<, src/flpr/Logical_Line.cc:operator<<")],
 ["text written by the stream operators of lines and logical lines", "line numbers of physical lines"])

prop("P02", "Free-form lines are split into label, code, continuation and comment",
 "For every free-form line, given the state left by the previous line (continued or not, inside a character literal or not), the line is classified (blank, comment, preprocessor, include, directive, code) and split into statement label, code text, continuation markers and trailing comment exactly as the free-form rules say. Exclamation marks and ampersands inside character literals are text, an ampersand continues a literal only when nothing but blanks follows, and the literal left open is carried to the next line, across interposed comment and blank lines. A line that ends inside a literal without a continuation is an error, never silently accepted.",
 ["inputs", "histories"],
 "All strings up to length N over the significant characters in every entry state, and all sequences of such lines.",
 "Unit tests sample about twenty lines; the classification interacts over every combination of quotes, ampersands, exclamation marks, digits and blanks and over the state of the previous lines.",
 ["src/flpr/File_Line.cc", "src/flpr/Logical_File.cc"],
 [("free-form analysis", "src/flpr/File_Line.cc:analyze_free"),
  ("character-context tracking", "src/flpr/File_Line.cc:find_trailing_free"),
  ("state carried between lines", "src/flpr/Logical_File.cc:scan_free")],
 ["classification queries and text fields of each physical line", "success or failure of the scan"])

prop("P03", "Fixed-form lines are split by column rules",
 "For every well-formed fixed-form line (columns 1 to 5 hold a label, a comment mark or blanks; a continuation line has no label), column-1 comment markers, a column-6 continuation mark, a label in columns 1 to 5 and the code text are recognised by the fixed-form column rules. Code stops at a comment mark outside character literals or at the configured last column, whichever is first, and everything after it is commentary; a last column of zero disables the limit. An open character literal is carried to the continuation line, across interposed comment and blank lines.",
 ["inputs", "histories", "configurations"],
 "All lines over the significant characters in the control columns and around the last column, in every entry state and for several last-column settings.",
 "Unit tests use a handful of fixed-form lines with one or two last-column values.",
 ["src/flpr/File_Line.cc", "src/flpr/Logical_File.cc"],
 [("fixed-form analysis", "src/flpr/File_Line.cc:analyze_fixed"),
  ("trailing-text search with last column", "src/flpr/File_Line.cc:find_trailing_fixed"),
  ("grouping", "src/flpr/Logical_File.cc:scan_fixed")],
 ["classification queries and text fields of each physical line"])

prop("P04", "Statements do not depend on how they are laid out over lines",
 "However a statement is broken over continuation lines (with or without leading ampersands, inside tokens or character literals where the language allows it, with comment and blank lines in between, in free or fixed form), its sequence of tokens - kinds, texts and grouping into statements - is the one of the unbroken line. Every token reports the line and column at which its first character stands in the source.",
 ["inputs", "programs"],
 "All ways of breaking representative statements at up to k positions, with every continuation style and every kind of interposed line.",
 "Tests fix two or three layouts; breaks can fall at every position and combine with comments, blanks and literals.",
 ["src/flpr/Logical_File.cc", "src/flpr/Logical_Line.cc", "src/flpr/Line_Accum.cc", "src/flpr/File_Line.cc"],
 [("joining of continued lines", "src/flpr/Logical_Line.cc:init_from_layout"),
  ("offset to line/column mapping", "src/flpr/Line_Accum.cc")],
 ["token kinds, texts and source positions of each logical line"])

prop("P05", "Tokenising is lossless, classified by the language, and memoryless",
 "The tokens of a statement, put together in order, are exactly the statement's text with the blanks between tokens removed, and each token records the position and the surrounding blanks it had. Each token has the kind the language gives it - names, every keyword in any letter case and in its joined or separated spelling, numbers with exponent and kind, character literals, operators and delimiters by longest match - and the result for a line never depends on lines tokenised before it.",
 ["inputs", "histories"],
 "All words of the keyword table in all case patterns and contexts, all operator/literal sequences up to N symbols, all character strings up to length N, and all ordered pairs of lines.",
 "Tests tokenise a few dozen lines and never check one line after another; the scanner keeps global state between lines.",
 ["src/flpr/scan_fort.l", "src/flpr/Logical_Line.cc", "src/flpr/Smash_Hash.hh", "src/flpr/Token_Text.cc"],
 [("flex scanner and its start states", "src/flpr/scan_fort.l"),
  ("splitting of joined keywords", "src/flpr/Logical_Line.cc:unsmash, src/flpr/Smash_Hash.hh"),
  ("token records", "src/flpr/Token_Text.cc")],
 ["token kind, text, lower-case text, position and spacing"])

prop("P06", "Every statement is found once, with its own label and comments",
 "The statement sequence of a file contains each non-empty semicolon-separated statement exactly once, in source order, with exactly the tokens between its separators. A label belongs to the first statement of its line only, and comment, blank and preprocessor lines belong to the next statement after them and to no other. Compound membership is numbered by position within the line.",
 ["inputs", "histories"],
 "All files of up to N lines from an alphabet of simple, compound, labelled, empty-statement, comment, blank, preprocessor, include and directive lines.",
 "Tests use single files with one or two compound lines; ownership of prefix lines depends on every order of line kinds.",
 ["src/flpr/LL_Stmt_Src.cc", "src/flpr/LL_Stmt.cc", "src/flpr/Logical_Line.cc", "src/flpr/Logical_File.cc"],
 [("statement source", "src/flpr/LL_Stmt_Src.cc"), ("statement ranges of a logical line", "src/flpr/Logical_Line.cc:init_stmts"),
  ("statement sequence", "src/flpr/Logical_File.cc:make_stmts")],
 ["statement sequence: token ranges, labels, compound index, prefix lines"])

prop("P07", "Edits to a logical line change what was asked and nothing else",
 "After any sequence of token-level edits of a logical line (replacing, inserting before or after, or removing text, splitting, removing empty statements, setting a label or the indentation, appending a comment), the written text contains the old text with exactly that change; comments, continuation structure and all other tokens survive. Scanning the written text again gives the same tokens and statements as the edited line holds in memory. (Removing or replacing single tokens is meant for tokens that stand on one line, and for changes that leave the neighbouring tokens readable as they were; splits happen between statements.)",
 ["histories", "inputs"],
 "All sequences of up to k edits at every token position, on every representative layout (single line, continued, continued with comments in between, compound, labelled, trailing comment).",
 "Tests apply single edits to a few layouts; bookkeeping of positions must survive arbitrary edit sequences.",
 ["src/flpr/Logical_Line.cc", "src/flpr/File_Line.cc"],
 [("fragment edits", "src/flpr/Logical_Line.cc:replace_fragment/remove_fragment/insert_text_*/split_after/..."),
  ("line edits", "src/flpr/File_Line.cc:set_label/set_leading_spaces/make_*")],
 ["written text", "in-memory tokens and statements", "re-scan of the written text"])

prop("P08", "Statement edits keep file text and statement list in step",
 "After any sequence of statement-level edits of a file (splitting or isolating compound statements, inserting a statement before or after the comments of another, replacing all or part of a statement, inserting or appending text, labelling), the list of statements in memory equals the one obtained by writing the file and scanning it again. Statements and comments not addressed by an edit keep their text, order and label, and positions held by the client in the statement list stay valid.",
 ["histories", "inputs"],
 "All sequences of up to k edits over all statements of representative files with compounds, labels, continuations, comments and preprocessor lines.",
 "Tests exercise two or three of the operations once each; the guarantee is about histories of edits.",
 ["src/flpr/Logical_File.cc", "src/flpr/Logical_Line.cc", "src/flpr/LL_Stmt.cc", "src/flpr/LL_Stmt_Src.cc"],
 [("statement-level edits", "src/flpr/Logical_File.cc"), ("statement ranges", "src/flpr/LL_Stmt.cc:update_range/rebase")],
 ["written text, statement list, iterators held across edits"])

prop("P09", "Fixed-to-free conversion preserves the program",
 "Converting a fixed-form file to free form yields text that, scanned as free form, has the same statements in the same order with the same tokens, labels, comments and preprocessor lines as the fixed-form original. Character literals continued across lines keep their exact characters, and text past the last column never becomes code.",
 ["programs", "inputs", "configurations"],
 "All fixed-form files of up to N lines over an alphabet of comment styles, labels, continuations (also inside literals and around interposed comments), trailing comments and past-last-column text.",
 "Tests convert one short file and compare one or two lines.",
 ["src/flpr/Logical_File.cc", "src/flpr/File_Line.cc", "apps/flpr_format_base.cc"],
 [("conversion", "src/flpr/Logical_File.cc:convert_fixed_to_free")],
 ["written text re-scanned as free form"])

prop("P10", "Re-indenting changes only leading blanks, by nesting, idempotently",
 "Re-indenting a program changes nothing but blanks: tokens, statement order, labels, literals, comments and continuation structure stay the same. Each statement is indented according to the construct nesting given by the chosen indent table, with a label kept in place, and re-indenting the result again changes nothing.",
 ["programs", "configurations"],
 "All programs of nested constructs up to a nesting depth and statement count, with labels, comments, continuations and each indent table.",
 "No test looks at indentation at all.",
 ["src/flpr/Parsed_File.hh", "src/flpr/Indent_Table.cc", "src/flpr/Logical_Line.cc", "src/flpr/File_Line.cc"],
 [("indentation walk", "src/flpr/Parsed_File.hh:indent"), ("tables", "src/flpr/Indent_Table.cc"),
  ("leading spaces", "src/flpr/File_Line.cc:set_leading_spaces")],
 ["written text before and after"])

prop("P11", "The program tree covers every statement once and mirrors nesting",
 "For every well-formed program the tree built contains each statement exactly once, in source order, and each construct, program unit, specification part, execution part and contained procedure in the tree spans exactly the statements that the language's nesting rules give it. Parent, child and sibling relations and the link from a statement to its place in the tree agree with each other.",
 ["programs"],
 "All programs generated from the construct grammar (program units, modules, interfaces, derived types, if/do/select/where/forall/associate/block nesting) up to a number of statements and nesting depth.",
 "Tests parse about sixty fixed snippets and mostly check only that they match; nesting combinations are unbounded.",
 ["src/flpr/Prgm_Parsers_impl.hh", "src/flpr/Prgm_Parsers_utils.hh", "src/flpr/Prgm_Tree.cc", "src/flpr/Parsed_File.hh"],
 [("program grammar", "src/flpr/Prgm_Parsers_impl.hh"), ("combinators", "src/flpr/Prgm_Parsers_utils.hh"),
  ("statement-to-tree links", "src/flpr/Parsed_File.hh")],
 ["program tree tags, ranges and hooks"])

prop("P12", "Labelled DO loops nest and terminate by their labels",
 "Loops of the form 'do LABEL ...' end at the statement bearing that label: an inner loop with its own label, loops sharing one terminating label, loops ended by CONTINUE, END DO or another action statement, and block DO or IF constructs in between are all nested exactly as the labels and end statements dictate. The nesting bookkeeping is empty again after each complete loop nest.",
 ["programs", "histories"],
 "All sequences of labelled/unlabelled DO, IF blocks, labelled action statements, CONTINUE and END DO up to N statements, against a reference nesting automaton; and all operation sequences on the label bookkeeping.",
 "Tests contain five fixed label-DO nests.",
 ["src/flpr/Prgm_Parsers_utils.hh", "src/flpr/Prgm_Parsers_impl.hh", "src/flpr/Label_Stack.hh"],
 [("label bookkeeping", "src/flpr/Label_Stack.hh"), ("legacy DO parser", "src/flpr/Prgm_Parsers_utils.hh:Legacy_Do_Construct_Parser")],
 ["acceptance, tree shape and consumed statements"])

prop("P13", "Each statement is recognised as the kind the grammar gives it",
 "Every statement of the supported Fortran grammar - in any order of its optional parts, lists of any length, any letter case and spacing, keywords used as names, joined or separated keywords - is accepted by the parser of its kind and reported with that kind. Token sequences that are not a statement of that kind are rejected, and a rejected attempt leaves the token position where it was.",
 ["inputs"],
 "All sentences derivable from the statement grammar up to a derivation bound for every statement kind, plus every single-token deletion, duplication and substitution of them, against an independent grammar recogniser.",
 "Tests try a few sentences per statement; the grammar's alternatives and optional parts multiply.",
 ["src/flpr/parse_stmt.cc", "src/flpr/Stmt_Parsers.hh", "src/flpr/TT_Stream.cc"],
 [("statement rules", "src/flpr/parse_stmt.cc"), ("combinators with rewind", "src/flpr/Stmt_Parsers.hh")],
 ["result tree tag, stream position"])

prop("P14", "Statement trees cover exactly the tokens of the statement",
 "The tree of an accepted statement has the statement's tokens, each exactly once and in order, as its leaves; every inner node spans exactly the contiguous tokens of its children (only an absent prefix or locality part may be an empty node), and the root spans the whole statement. No inner node is an artefact of list building, and looking up parts through the tree yields the same text as the source, and moving up, down and sideways leads from every node to its parent, its children and its neighbours. The kind of a statement, and of the action inside a one-line IF, is the one of the tree.",
 ["inputs"],
 "All sentences derivable from the statement grammar up to a derivation bound, for every statement kind.",
 "Tests check tree shape for a handful of statements.",
 ["src/flpr/Stmt_Parsers.hh", "src/flpr/Stmt_Tree.cc", "src/flpr/Tree.hh", "src/flpr/LL_TT_Range.cc", "src/flpr/parse_stmt.cc"],
 [("hoisting and covering", "src/flpr/Stmt_Tree.cc"), ("combinators", "src/flpr/Stmt_Parsers.hh")],
 ["statement tree leaves and token ranges"])

prop("P15", "The statement list container keeps order and iterators valid",
 "Under every sequence of list operations (construction, copying, moving, assignment, insertion, emplacement, pushing and popping at either end, erasure, conditional removal, clearing) the list holds the same elements in the same order as an ordinary sequence would. Iterators to surviving elements and the past-the-end iterator stay valid, and a range of the list keeps denoting the same statements when elements are inserted or removed around it.",
 ["histories"],
 "All operation sequences up to depth k from an operation alphabet with every position argument, checked step by step against a plain sequence.",
 "Tests run one scripted sequence.",
 ["src/flpr/Safe_List.hh"],
 [("list with persistent end", "src/flpr/Safe_List.hh"), ("ranges", "src/flpr/Safe_List.hh:SL_Range")],
 ["contents forward and backward, size, held iterators, ranges"])

prop("P16", "Trees stay well formed under grafting and cursor navigation",
 "Under every sequence of tree operations (grafting at either end or before a position, moving, swapping, clearing, building from parts) the tree has exactly the expected shape and values, every node knows its parent and its place, and sizes and counts agree. Cursors move exactly as the shape says, report possible moves truthfully, and refuse an impossible single step without moving.",
 ["histories"],
 "All operation sequences up to depth k on trees of bounded size, and all cursor move sequences on every tree shape up to n nodes, against a reference tree.",
 "Tests build three trees.",
 ["src/flpr/Tree.hh"],
 [("nodes and branch links", "src/flpr/Tree.hh:Tree_Node"), ("cursors", "src/flpr/Tree.hh:Tree_Cursor")],
 ["shape, values, parent links, cursor positions"])

prop("P17", "Token-stream navigation is exact and reversible",
 "For every token sequence, peeking, consuming, putting back, marking, rewinding, capturing and looking for matching parentheses or brackets behave as an index into the sequence: bounds are respected, a failed search says so, and rewinding to a mark restores the position exactly. A captured range contains exactly the tokens passed between its two ends.",
 ["histories", "inputs"],
 "All navigation sequences up to depth k on all token sequences up to length n over names, parentheses, brackets and commas.",
 "Tests walk one or two fixed streams.",
 ["src/flpr/TT_Stream.cc", "src/flpr/TT_Stream.hh", "src/flpr/LL_TT_Range.cc"],
 [("token stream", "src/flpr/TT_Stream.hh"), ("paren matching", "src/flpr/TT_Stream.cc")],
 ["current token, peeked tokens, captured ranges, return values"])

prop("P18", "Procedure regions partition the procedure and survive edits",
 "For every procedure, the regions reported (heading, use, import, implicit, declarations, execution part, contained part, end) are consecutive, disjoint and together exactly the procedure's statements, each region holding the statements the language puts there. After inserting, replacing or changing statements through the procedure, regions include the new statement where it was put, and the written file contains exactly the requested change.",
 ["programs", "histories"],
 "All procedure shapes (kind of procedure, presence and size of every region) and all sequences of up to k region edits at every region boundary.",
 "There is no test of procedures or their regions.",
 ["src/flpr/Procedure.hh", "src/flpr/Range_Partition.hh", "src/flpr/Parsed_File.hh"],
 [("regions", "src/flpr/Procedure.hh:ingest"), ("partition of a statement range", "src/flpr/Range_Partition.hh")],
 ["region ranges, names, labels, written text"])

prop("P19", "Visiting procedures reaches each exactly once with its context",
 "Visiting the procedures of a file calls the action exactly once for every main program, external, module and internal procedure that has a body, in source order, and tells truthfully whether it is internal and whether it belongs to a module. The visit reports a change exactly when some action reported one.",
 ["programs"],
 "All files of up to n program units with every combination of contained procedures and interface blocks.",
 "There is no test of the visitor.",
 ["src/flpr/Procedure_Visitor.hh"],
 [("visitor", "src/flpr/Procedure_Visitor.hh")],
 ["sequence of (procedure, internal, module) calls, result"])

prop("P20", "The formatter preserves programs under every option combination",
 "For every input and every combination of formatter options (fixed-to-free conversion, removing empty statements, splitting compounds, indentation), the output scanned again holds the same statements in the same order with the same tokens and labels and every comment and preprocessor line of the input. Formatting its own output again with the same options changes nothing. A file that cannot be read produces no output, and one whose statements do not form a program is not re-indented.",
 ["programs", "configurations"],
 "All files of up to N lines over an alphabet of compounds, empty statements, labels, continuations and comments inside procedures, times all option sets.",
 "No test runs the formatter.",
 ["apps/flpr_format_base.cc", "src/flpr/Logical_File.cc", "src/flpr/Parsed_File.hh"],
 [("format pipeline", "apps/flpr_format_base.cc")],
 ["formatter output text"])

prop("P21", "Malformed programs are reported, never crash or hang",
 "For every sequence of statements or tokens, well formed or not - unbalanced parentheses, missing or surplus end statements, truncated constructs, unmatched labels, empty files - scanning and parsing terminate normally and either deliver a tree of all the statements or report failure. They never abort, read outside the input, loop forever, or report success with statements left over.",
 ["inputs", "programs"],
 "All token sequences up to length N over the structural tokens, and all statement sequences up to length M over opening, middle and closing statements of every construct.",
 "Tests parse correct programs only.",
 ["src/flpr/parse_stmt.cc", "src/flpr/Prgm_Parsers_utils.hh", "src/flpr/Prgm_Parsers_impl.hh", "src/flpr/Parsed_File.hh", "src/flpr/TT_Stream.hh"],
 [("expression skipping", "src/flpr/parse_stmt.cc:consume_until_break/consume_parens"),
  ("failure reporting", "src/flpr/Parsed_File.hh")],
 ["process survival, success flag, tree"])

prop("P22", "Statement extensions add statements without changing existing ones",
 "Registering client statement parsers makes exactly the statements they match acceptable where the registration says (executable or specification part), tried in registration order and only after the standard rules for action or specification statements fail. Every other statement is parsed as without extensions, a failing extension leaves no trace, and clearing restores the standard language.",
 ["histories", "configurations"],
 "All registration/clear histories up to depth k times all statements of a representative set.",
 "No test registers an extension.",
 ["src/flpr/Stmt_Parser_Exts.cc", "src/flpr/parse_stmt.cc", "src/flpr/Syntax_Tags.cc"],
 [("registry", "src/flpr/Stmt_Parser_Exts.cc"), ("fallback to extensions", "src/flpr/parse_stmt.cc:action_stmt/other_specification_stmt")],
 ["acceptance and kind of statements"])

prop("P23", "Automatic USE insertion touches exactly the procedures that need it",
 "Given call names and a module, the source transformation adds one USE of that module, after the existing USE statements and before everything else, to exactly those non-internal procedures whose execution part calls one of the names (also inside a one-line IF, in any letter case, also through components) and that do not use the module yet. No other statement, comment or procedure changes, and running it again changes nothing.",
 ["programs", "configurations"],
 "All files of up to n procedures with every combination of calls, existing USE forms, contained procedures and comments.",
 "No test runs this tool.",
 ["apps/module_base.cc", "src/flpr/Procedure.hh", "src/flpr/Procedure_Visitor.hh", "src/flpr/Logical_File.cc"],
 [("transformation", "apps/module_base.cc")],
 ["written text"])

prop("P24", "Every file is read in its form and treated as if it were alone",
 "A file is read as free or fixed form as its type says, or else as the extension of its name says, and a file of unknown form, or that cannot be read, is reported and never treated as something else. Whatever files were read, rejected, parsed, converted or indented before or at the same time, in any order, the lines, tokens, statements, trees, messages of success and written text of a file are what they are when it is the only one. The programs (formatting, parsing, module insertion, showing trees) keep this over any list of files and any combination of options: each file's output is the one that the file and the options alone determine, a file that fails does not disturb the others, options hold for every file alike, only the files to be changed are written, with a backup of the old text, and wrong usage is refused.",
 ["histories", "programs", "configurations"],
 "All sequences up to length n of files that succeed or fail at every stage, times ways of interleaving the stages, and all option combinations times file lists.",
 "Tests read one file each, and none runs the programs on several.",
 ["src/flpr/Logical_File.cc", "src/flpr/Parsed_File.hh", "src/flpr/File_Info.hh", "src/flpr/Indent_Table.cc", "apps/flpr-format.cc", "apps/flpr_format_base.cc", "apps/parse_files.cc", "apps/module.cc", "apps/module_base.cc", "apps/flpr_show_cst.cc"],
 [("command line", "apps/flpr-format.cc"), ("reading", "src/flpr/Logical_File.cc")],
 ["written text", "trees", "files on disk"])

prop("P25", "Inserting calls around the execution part keeps every path to the end call",
 "The caliper source transformation changes exactly the procedures that are not internal, have an execution part and are not PURE or ELEMENTAL. In each of them a begin call naming the procedure becomes the first statement of the execution part and an end call its last one, taking the place and label of a final RETURN. Every other RETURN of that execution part, also in a one-line IF, becomes a GO TO the end call, keeping its own label and condition, and the end call then has a label that no other statement of the procedure has. No other statement, label, comment or line changes, and a file that needs nothing or cannot be parsed produces no output.",
 ["programs", "configurations"],
 "All programs up to n statements and all bodies over a set of RETURN and look-alike statements, times layouts and label patterns.",
 "No test runs this tool.",
 ["apps/caliper.cc", "src/flpr/Procedure.hh", "src/flpr/Procedure_Visitor.hh", "src/flpr/Logical_File.cc"],
 [("transformation", "apps/caliper.cc")],
 ["written text"])

prop("P26", "A range partition stays a row of adjacent segments",
 "Under every history of appending elements to partitions in order, looking partitions up (which activates empty ones), inserting elements at any position of a partition, attaching trackers and clearing, every partition's begin and end delimit exactly the elements given to it, in order, with empty partitions sitting between their neighbours, both through constant and modifiable access. Elements inserted into a partition belong to it and to no other, the whole range is the concatenation of the partitions, and the trackers of the partition inserted into, and of the one that ends there, hear of the change.",
 ["histories"],
 "All operation histories up to depth k for up to n partitions, every position and size argument.",
 "No test uses a range partition.",
 ["src/flpr/Range_Partition.hh", "src/flpr/Safe_List.hh"],
 [("partition list", "src/flpr/Range_Partition.hh")],
 ["iterators"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
