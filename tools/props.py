#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import registry
P = []


def p(id, title, statement, over, text, why, files, mech, tech=None, level_note=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  tech=tech, note=level_note, na=na, state=state))


EN = "abstract interpretation of MIR (assume/guarantee, per-path monitors)"
PE = "fall/parse/src/syn_engine/expr.rs"
PP = "fall/parse/src/syn_engine/parser.rs"

p("C01", "The tree reproduces the text: no token lost, repeated or reordered",
  "For every language, text and sequence of edits, the syntax tree of a file is lossless: its leaves, read left to right, are exactly the raw tokens of the text in order (a contextual leaf glues several adjacent tokens), and the token lengths add up to the length of the text. This holds for full and incremental parsing and whatever whitespace binding the language chooses.",
  ["inputs", "programs", "histories"], "every grammar table, every token sequence, every edit",
  "Tests dump trees of about a hundred sample texts; a dropped or duplicated token needs a particular combination of operators, whitespace binding and input.",
  ["fall/parse/src/lex_engine.rs", PE, PP, "fall/parse/src/syn_engine/convert.rs", "fall/parse/src/lib.rs"],
  [("raw tokens are pushed until the text is exhausted", "fall/parse/src/lex_engine.rs lex, relex"),
   ("the root consumes or wraps in an error every token", "fall/parse/src/syn_engine/expr.rs parse"),
   ("every token slot is turned into exactly one leaf", "fall/parse/src/syn_engine/convert.rs Convertor::go, fill")], EN)
p("C02", "Tree shape: children tile their parent, parent links mirror child lists",
  "In every tree that is built, the children of a node are adjacent, in order, and together cover exactly the node's range (a node without children that is not a token is empty). A node's parent is the one node that lists it as a child, and the first node created is the root, without parent.",
  ["inputs", "programs"], "every well-nested sequence of builder calls",
  "The tests compare dumped trees, which show neither ranges nor parent links.",
  ["fall/tree/src/node/tree_builder.rs", "fall/tree/src/node/imp.rs"],
  [("builder operations keep the open-node stack, ranges and links in step", "fall/tree/src/node/tree_builder.rs"),
   ("reads go through ids of the same file", "fall/tree/src/node/imp.rs")], EN)
p("C03", "A failed alternative leaves no trace; a match adds one well-nested piece",
  "Whatever a grammar rule tries before it fails, the failure leaves no trace: the nodes and tokens recorded so far, the kind of the previously matched element and any pending node replacement are as they were before the attempt. A rule that matches adds one well-nested piece of tree that covers exactly the tokens between where it started and where it ended.",
  ["inputs", "programs"], "every grammar table and token sequence, every operator and outcome",
  "Backtracking that leaks needs a failing alternative with a particular prefix; tests sample a few dozen grammars.",
  [PE, PP, "fall/parse/src/syn_engine/pratt.rs"],
  [("marks and rollback of the event log", PP), ("operators restore state on their failure paths", PE)], EN)
p("C04", "Lookahead never changes the parse result",
  "Evaluating a rule as a lookahead (negative lookahead, the frame rule of a layer, or a skip pattern) adds nothing to the tree, however it ends, and parsing continues in the mode it had before. A negative lookahead also leaves the kind of the previous element and any pending replacement as they were.",
  ["inputs", "programs"], "every grammar table and token sequence",
  "Nested lookahead combined with caching, contexts or replacement is not sampled by the tests.",
  [PE, PP], [("the mode flag and its restoration", PP), ("operators that look ahead", PE)], EN)
p("C05", "Parsing contexts and rule arguments are scoped to the rule that set them",
  "A context entered or exited for a rule is seen by that rule and what it invokes, and nothing else: after the rule, matched or not, the contexts are what they were. A parametrised rule sees exactly the arguments of its own invocation, forwarded parameters mean what they meant to the caller, and on return the caller's arguments are in force again.",
  ["inputs", "programs"], "every grammar table and token sequence",
  "Leaks need a failing rule inside a context or nested parametrised calls that reuse parameter slots.",
  [PE, PP], [("enter/exit, call and variable operators", PE), ("context and argument slots", PP)], EN)
p("C06", "Operator expressions group by declared precedence",
  "An expression rule parses exactly the tree the declared operator table describes: atoms and prefixes are tried in declaration order, an infix or postfix operator applies only if its priority is at least the current minimum, a right operand is parsed with a strictly higher minimum (so equal priorities associate to the left) and a prefix operand with the prefix's priority. The node of an operator covers exactly its operands and the operator; a missing right operand yields an error inside the node, never a lost operator.",
  ["inputs", "programs"], "every operator table and token sequence",
  "Tests use one arithmetic grammar and a few Rust expressions.",
  ["fall/parse/src/syn_engine/pratt.rs", PP], [("precedence loop", "fall/parse/src/syn_engine/pratt.rs"), ("re-parenting the left operand", PP)], EN)
p("C07", "Every grammar operator means what the grammar language says",
  "Alternatives are tried in order and the first that matches wins; a sequence matches its parts one after the other and fails with the first failing part before its commit point, after which it recovers with an error instead; repetition and option never fail, and repetition goes on exactly until a round fails; token, any, eof, previous-element and context tests consume what they name and nothing else. Layers confine the body to the frame's tokens and turn the rest into errors, skipping inserts errors until the first parsable token, and replacement renames exactly the node it is declared for.",
  ["inputs", "programs"], "every grammar table and token sequence",
  "Each operator is exercised on a few inputs by the example grammars; the error-recovery and outcome combinations are not enumerated.",
  [PE, PP], [("one arm per operator", PE)], EN)
p("C08", "Incremental parsing reuses a subtree only where it is still valid",
  "A subtree of the previous parse is offered for reuse only if all of its text was copied unchanged by the edit and it contains no error, and only at the position that text has after the edit, for the same grammar rule. A reused subtree is replayed whole, advances by exactly the tokens it was recorded with, and is never used outside a context-free rule, across the end of a layer, or at a position with no token.",
  ["inputs", "histories", "programs"], "every tree, edit sequence and grammar table",
  "The incremental tests make a handful of edits to two files; stale reuse needs an edit with several copied parts or a layer boundary.",
  [PE, PP, "fall/parse/src/syn_engine/mod.rs"],
  [("salvaging segments", "fall/parse/src/syn_engine/mod.rs salvage_segments"), ("cache lookup and replay", PE)], EN)
p("C09", "Relexing after an edit never reuses a token the edit touched",
  "When a text is relexed after an edit, an old token is reused only if it lies completely inside text copied by the edit, is not the last token of that copied piece, starts at the place where lexing of the new text stands, and the old text had no lexing error. Everything else is lexed afresh from the new text, and the resulting token lengths add up to the length of the new text.",
  ["inputs", "histories"], "every old token sequence, every edit with any number of copied and inserted pieces",
  "Tests apply single edits; the interplay of several copied, deleted and inserted pieces is unbounded.",
  ["fall/parse/src/lex_engine.rs"], [("relex synchronisation loop", "fall/parse/src/lex_engine.rs relex")], EN)
p("C10", "Tokens get the kind of the rule that matched and follow each other",
  "Each token produced has the kind of the lexical rule that matched (an error kind if none did), the rules are offered to the lexer in declaration order, each with its own pattern and custom function, and lexing continues exactly where the previous token ended until the text is exhausted.",
  ["inputs", "programs"], "every list of lexical rules and every text",
  "Tests lex a few sample texts with the five shipped token lists.",
  ["fall/parse/src/lib.rs", "fall/parse/src/lex_engine.rs"],
  [("kind table aligned with rule numbering", "fall/parse/src/lib.rs RegexLexer::new, next_token"), ("lexing loop", "fall/parse/src/lex_engine.rs step, lex")], EN)
p("C11", "Shipped grammars cannot recurse or loop without consuming input",
  "In each grammar the repository ships (JSON, BNF, fall, Rust and the test languages), no rule can invoke itself without having consumed a token, and no repetition has a body that may match nothing without the repetition ending. Hence parsing any text with a shipped grammar terminates.",
  ["inputs"], "every text, for each shipped grammar table",
  "An endless recursion only shows on the input that reaches it.",
  ["lang/json/src/json.rs", "lang/bnf/src/bnf.rs", "lang/fall/syntax/src/fall.rs", "lang/rust/syntax/src/rust.rs", "fall/test/src/arith.rs", "fall/test/src/sexp.rs", "fall/test/src/weird.rs", PE],
  [("parser tables", "lang/*/…rs PARSER_JSON"), ("repetition", PE)],
  "dataflow (nullability and left-call graph) over the grammar tables in the source, with the operator rules from MIR")
p("C12", "Shipped grammar tables are well formed",
  "In every shipped grammar table, every rule, node kind, context, argument slot and commit point referred to exists, a rule is only invoked with all its parameters bound, contextual tokens have a text, and every expression rule's atoms and injected prefixes are rules that build a node. So the generated parser never indexes outside its tables whatever the text.",
  ["inputs"], "every text, for each shipped grammar table",
  "A dangling reference panics only on the input that reaches the rule.",
  ["lang/json/src/json.rs", "lang/bnf/src/bnf.rs", "lang/fall/syntax/src/fall.rs", "lang/rust/syntax/src/rust.rs", "fall/test/src/arith.rs", "fall/test/src/sexp.rs", "fall/test/src/weird.rs"],
  [("parser tables and node kind lists", "lang/*/…rs")], "dataflow over the grammar tables in the source (reference resolution, parameter binding, first-event analysis)")
p("C13", "Mandatory parts promised by typed tree accessors are there",
  "Whenever a typed accessor of a syntax node promises a child without making it optional, the grammar guarantees that child in every node of that kind, also in files with syntax errors. Accessors for parts that error recovery may leave out are optional.",
  ["inputs"], "every text, complete or not, for each shipped grammar",
  "Accessors panic only on incomplete files, which tests hardly contain.",
  ["lang/fall/syntax/src/fall.rs", "lang/rust/syntax/src/rust.rs", "lang/bnf/src/bnf.rs", "lang/json/src/json.rs", "lang/fall/syntax/src/ast_ext.rs"],
  [("generated accessors", "lang/*/…rs"), ("hand-written accessors", "lang/fall/syntax/src/ast_ext.rs")],
  "must-produce dataflow over the grammar tables matched against the accessors found in MIR")
p("C14", "Text ranges are never inverted and their algebra is right",
  "A text range always has start ≤ end, however it is made. Length, emptiness, containment, intersection, disjointness, gluing, shifting and ordering of ranges agree with the half-open interval they denote, and slicing a text yields exactly the requested part, relative to the text it is taken from, or panics.",
  ["inputs"], "every pair of ranges, offsets and texts",
  "The tests check a few dozen random or fixed values of four of the operations.",
  ["fall/text/src/text_range.rs", "fall/text/src/text.rs", "fall/text/src/text_slice.rs", "fall/text/src/text_unit.rs"],
  [("range constructors", "fall/text/src/text_range.rs"), ("slicing", "fall/text/src/text.rs")], EN)
p("C15", "A text edit describes exactly the requested change",
  "An edit built from inserts, deletes and replacements, made in increasing position, consists of copied and inserted pieces in order such that everything not deleted or replaced is copied exactly once and unchanged, and the inserted texts stand at the requested positions. Applying an edit concatenates its pieces in order; going back in position is refused.",
  ["inputs", "histories"], "every text and every sequence of builder calls",
  "One unit test builds one edit.",
  ["fall/text/src/text_edit.rs"], [("builder and application", "fall/text/src/text_edit.rs")], EN)
p("C16", "A tree edit becomes the text edit that was asked for",
  "Editing a file by nodes yields a text edit in which a deleted node's text is removed, a replaced node's text is replaced, text inserted after a node follows that node (also if the node itself is deleted or replaced), and everything else is copied unchanged and in order. Asking twice for the same node is not an error: one of the requests for it wins. Replacing a substring changes only that substring.",
  ["inputs", "histories"], "every tree and set of node edits",
  "Editor tests apply a handful of actions.",
  ["fall/tree/src/edit.rs"], [("traversal that collects the edits", "fall/tree/src/edit.rs")], EN)
p("C17", "Tree search finds the right node and traversals visit every node once",
  "Looking up an offset yields the non-empty leaf or the two adjacent leaves that touch it, covering search for a non-empty range yields the smallest node that contains the range, ancestors run from the node to the root, siblings are the neighbours in the parent. Traversals visit each node of a subtree exactly once, children before (or, walking down, after) their parent, and child and descendant queries return all and only the nodes of the wanted kinds.",
  ["inputs"], "every tree, node, offset and range",
  "Tests search a few sample trees.",
  ["fall/tree/src/search.rs", "fall/tree/src/visitor.rs", "fall/tree/src/ast.rs", "fall/tree/src/util.rs"],
  [("search functions", "fall/tree/src/search.rs"), ("visitors", "fall/tree/src/visitor.rs")], EN)
p("C18", "Grammar analysis queries are consistent, memoised once and deadlock-free",
  "A memoised analysis query returns the same answer to every caller and reports its diagnostics exactly once, also if several threads ask at the same time. No lock is held while a query runs or another lock is taken in the opposite order, and queries never depend on themselves, so asking cannot deadlock or recurse for ever.",
  ["schedules", "inputs"], "every interleaving of threads asking queries about every grammar file",
  "Tests are single threaded.",
  ["lang/fall/src/analysis/db.rs", "lang/fall/src/analysis/query/mod.rs", "lang/fall/src/analysis/mod.rs"],
  [("memoisation protocol", "lang/fall/src/analysis/db.rs execute"), ("query call graph", "lang/fall/src/analysis/query/")],
  "lock-scope and call-graph analysis over MIR, path monitor of the memoisation protocol")
p("C19", "Every grammar problem the queries can find is reported",
  "Collecting diagnostics asks every query that can report a problem, for every element of the file it applies to, and returns everything reported, errors before warnings and in order of position. A resolution query answers with nothing only after it has reported why, unless the element is of no concern to it.",
  ["inputs"], "every grammar file",
  "Tests check a dozen broken grammars.",
  ["lang/fall/src/analysis/mod.rs", "lang/fall/src/analysis/query/mod.rs", "lang/fall/src/analysis/query/resolve_call.rs", "lang/fall/src/analysis/query/resolve_ref_expr.rs"],
  [("driver of diagnostics", "lang/fall/src/analysis/mod.rs collect_all_diagnostics"), ("queries", "lang/fall/src/analysis/query/")],
  "path analysis over MIR (report-before-giving-up, must-visit)")
p("C20", "The grammar compiler emits the construct the grammar names",
  "For every construct of the grammar language, the compiler emits the parser operation of that name with its operands in the written order, refers to the rule, token, parameter or context that was resolved, and turns an unresolvable grammar into an error rather than a wrong parser. The numbering of node kinds, rules, parameters and contexts in the parser table is the one the generated code declares.",
  ["inputs", "programs"], "every grammar file",
  "Six grammars are compiled by the tests.",
  ["fall/gen/src/generate/codegen.rs", "lang/fall/src/analysis/query/resolve_call.rs"],
  [("compilation of expressions", "fall/gen/src/generate/codegen.rs gen_expr, gen_rule, gen_pratt"), ("resolution of built-in calls", "lang/fall/src/analysis/query/resolve_call.rs")], EN)
p("C21", "Generated parsers and diagnostics do not depend on hash order",
  "Running the grammar compiler or the diagnostics on the same grammar always produces the same output: nothing that is written out or returned in order is taken from an unordered collection, the clock or addresses.",
  ["inputs", "schedules"], "every grammar file, every hash seed",
  "A test run sees one hash seed.",
  ["fall/gen/src/generate/codegen.rs", "fall/gen/src/generate/mod.rs", "lang/fall/src/analysis/query/mod.rs", "lang/fall/src/analysis/query/all_context_ids.rs"],
  [("ordered collections", "lang/fall/src/analysis/query/all_context_ids.rs"), ("compiler", "fall/gen/src/generate")],
  "who-may-iterate rule over the resolved call graph from the compiler and the diagnostics")
p("C22", "A context action is offered exactly when applying it yields an edit",
  "For every file and selection, an editor action is listed as available if and only if applying it gives an edit, the listed names are the ones that can be applied, and asking for availability changes nothing. An unknown action name yields nothing.",
  ["inputs"], "every file and selection, for each action",
  "Tests check one or two positions per action.",
  ["fall/editor/src/actions.rs", "lang/rust/src/editor/actions.rs", "lang/rust/src/editor/mod.rs", "lang/fall/src/editor/mod.rs", "lang/fall/src/editor/actions/swap_alternatives.rs", "lang/fall/src/editor/actions/extract_rule.rs"],
  [("actions", "lang/*/src/editor/actions*"), ("dispatch", "fall/editor/src/actions.rs")],
  "path analysis over MIR of the availability flag (two-run path equivalence)")
p("C23", "Editor queries never fail on a valid position",
  "For every file and every offset or range inside it, the editor queries that take a position never panic, underflow, invert a range or cut the text inside a character, the start and the end of the file included. Ranges they answer with lie inside the file, and extending a selection that is not empty yields a strictly larger one that contains it.",
  ["inputs"], "every file and every offset in it",
  "Tests use one caret position each; offset 0 and the end of file are not sampled.",
  ["lang/rust/src/editor/mod.rs", "lang/rust/src/editor/actions.rs", "fall/editor/src/extend_selection.rs", "fall/editor/src/actions.rs", "lang/fall/src/editor/mod.rs", "lang/fall/src/editor/references/mod.rs", "lang/fall/src/editor/references/refdec.rs", "lang/fall/src/editor/actions/extract_rule.rs", "lang/fall/src/editor/actions/swap_alternatives.rs"],
  [("offset arithmetic", "lang/rust/src/editor/mod.rs")], EN)
p("C24", "Go-to-definition and find-usages agree",
  "Whatever kind of name the caret is on, the definition that go-to-definition leads to has the reference among its usages, whether the usages are looked for from the reference or from the name of the definition, and every usage listed for a definition resolves to that definition. Each kind of reference that the analysis can resolve (to a rule, a parameter, a token, a node or a class of the ast) can be followed and searched for.",
  ["inputs"], "every grammar file and offset",
  "Tests check a few names.",
  ["lang/fall/src/editor/references/mod.rs", "lang/fall/src/editor/references/refdec.rs"],
  [("the two queries", "lang/fall/src/editor/references/refdec.rs resolve_reference, find_usages"), ("reference and declaration providers", "lang/fall/src/editor/references/mod.rs ref_provider, def_provider")], "abstract interpretation over MIR with monitored scans and opaque providers")
p("C25", "The file index mirrors the file set",
  "After a file system event has been handled, the index holds exactly the indexable files it was told about: a changed file has the value computed from its new contents, a file that no longer exists or no longer yields a value has no entry, and removing a directory removes everything below it. Files outside the filter are never indexed, and no lock is held while a file is read.",
  ["histories", "schedules"], "every sequence of file system events",
  "The index has no tests.",
  ["indxr/src/lib.rs"], [("event handling", "indxr/src/lib.rs change"), ("watch loop", "indxr/src/lib.rs watch")], EN)
p("C26", "Parsing never panics on a well-formed grammar",
  "Parsing any text, fully or incrementally, with a well-formed grammar table never panics: no index, slice or subtraction of the parsing engine can go out of range, and no unreachable case is reached, whatever the tokens are.",
  ["inputs", "programs", "histories"], "every well-formed grammar table, token sequence and edit",
  "Panics need the particular input that reaches the end of the tokens or an unusual combination of operators.",
  [PE, PP, "fall/parse/src/syn_engine/pratt.rs"], [("positions, slices and counters of the engine", PE)], EN)
p("C27", "Symbol search and line numbers are faithful",
  "The line and column of an offset are those of the line that contains it, counting from zero, for every text. A symbol index lists exactly the named items of a file with their own range, and a search returns those whose name contains the query as a subsequence, whatever the case: types first, and everything when the query is marked with # or no type matches.",
  ["inputs"], "every text, offset and query",
  "Two texts are tested for lines, symbols not at all.",
  ["lang/rust/src/editor/line_index.rs", "lang/rust/src/editor/symbol_index.rs", "lang/rust/src/editor/fst_subseq.rs", "lang/rust/src/editor/file_symbols.rs"],
  [("line table", "lang/rust/src/editor/line_index.rs"), ("subsequence automaton", "lang/rust/src/editor/fst_subseq.rs")], EN)
p("C28", "Files and analyses are thread-safe and immutable once built",
  "A parsed file, a tree node, a grammar analysis and an editor file can be sent to and shared between threads, and nothing reachable from a shared file can be changed except the metrics and the memo tables, which are behind locks.",
  ["schedules", "programs"], "every program that uses the public API",
  "Data races do not show in single-threaded tests.",
  ["fall/tree/src/node/mod.rs", "fall/tree/src/node/imp.rs", "fall/tree/src/lang.rs", "fall/tree/src/metrics.rs", "lang/fall/src/analysis/mod.rs"],
  [("public types of the tree", "fall/tree/src/node"), ("analysis", "lang/fall/src/analysis")],
  "type-level: auto-trait facts and reachable-type walk from the type checker, no unsafe code or interior mutability outside locks")

p("C29", "Whitespace and comments belong to the node the language gives them to",
  "When a syntax tree is built, the language is asked once for each side of each node how much of the adjacent whitespace it takes, and is shown exactly the whitespace tokens there, in order, with their text. Exactly the tokens it claims become the first and last leaves of the node, what is left stays with the parent, and the file node takes all of the whitespace at its ends.",
  ["inputs", "programs"], "every text, event log and whitespace binder",
  "Tests dump a few texts with comments; the grouping for empty nodes, neighbours sharing a gap, and several comments is not sampled.",
  ["fall/parse/src/syn_engine/convert.rs", "fall/parse/src/lib.rs"],
  [("asking the binder and placing whitespace", "fall/parse/src/syn_engine/convert.rs Convertor::go, fill"), ("the binder of a parser", "fall/parse/src/lib.rs ParserDefinition::parse")], EN)
p("C30", "Reformatting only changes blanks within a line",
  "Reformatting a grammar leaves exactly one blank on each side of every | and none behind < or before >, wherever the neighbour on that side has no line break in it (a single blank character that is there already is left alone), and asks for no other change: no token, comment or line break is touched, and every node of the file is treated alike. Reformatting a file of a language without a formatter changes nothing.",
  ["inputs"], "every file",
  "Two small grammars are reformatted by the tests; the angle brackets, wide gaps, tabs, comments next to tokens and nested alternatives are not.",
  ["lang/fall/src/editor/formatter.rs", "fall/editor/src/lib.rs", "lang/fall/src/editor/mod.rs"],
  [("rules of spacing", "lang/fall/src/editor/formatter.rs Spacer::apply"), ("walk through the file", "lang/fall/src/editor/formatter.rs reformat_node"), ("reformatting without a formatter", "fall/editor/src/lib.rs EditorFileImpl::reformat")], EN)
p("C31", "Highlights and outline show every construct as what it is",
  "In a grammar, comments, both kinds of strings, the keywords, parameter markers and attributes are coloured as such; names in definitions of rules, syntax nodes, classes and traits are coloured as functions and names of tokens as literals; references are coloured by what they resolve to (token, rule, parameter; not at all if they resolve to nothing); the name and angle brackets of a call are coloured as built-in, or as function if it calls a rule or cannot be resolved; the selectors of accessors are coloured by what kind of child they give. Nothing else is coloured, and Rust source has no colours but those of errors. Every error node of any file is marked, over its own text or, where nothing stands there, over the character that follows (if any), and no mark ever leaves the file or cuts a character. The outline lists each named rule and each tokenizer or ast block (grammars) and each symbol (Rust) once, with its own name and range, and nothing else.",
  ["inputs"], "every file",
  "One small highlighting and one outline test exist for grammars; error marks at the end of a file or before a character of several bytes, unresolved names, classes, traits and most kinds of tokens are not covered.",
  ["fall/editor/src/hl.rs", "lang/fall/src/editor/highlighting.rs", "lang/fall/src/editor/structure.rs", "lang/fall/src/editor/mod.rs", "lang/rust/src/editor/mod.rs"],
  [("marks for errors", "fall/editor/src/hl.rs Highlighter::visit, visitor"), ("colours of grammar constructs", "lang/fall/src/editor/highlighting.rs"), ("outline of a grammar", "lang/fall/src/editor/structure.rs")], EN)
p("C32", "A context action makes the change it is named for",
  "Applied anywhere, Swap exchanges the texts of the nearest neighbours, not counting blanks and comments, on both sides of the comma at the cursor if they are of the same kind; Swap alternatives exchanges the alternatives directly before and behind the bar at the cursor; Extract rule takes the innermost expression around the selection (not a bare reference), or in a sequence the run from the first to the last part that the selection touches if both are expressions, replaces it by new_rule and adds a rule new_rule with exactly that text behind the rule it came from; Add braces puts the last segment of the path of a use without braces in braces; Add impl adds behind the struct or enum at the cursor an empty impl that repeats its parameters and lists their names in order. No action asks for any other change. Extending a selection gives the smallest node around it that is larger, or nothing; at a cursor it gives the first token that is not blank, or the blank, or, in the indentation of a line, what covers that line.",
  ["inputs"], "every file and selection",
  "Each action has one test or two, with one file and one selection; comments between the neighbours, three alternatives, selections that begin in the middle of a part, lifetimes, enums and nested nodes are not covered.",
  ["fall/editor/src/actions.rs", "fall/editor/src/extend_selection.rs", "lang/fall/src/editor/actions", "lang/rust/src/editor/actions.rs"],
  [("swapping neighbours", "fall/editor/src/actions.rs swap, nonws_sibling, find_comma"), ("extending a selection", "fall/editor/src/extend_selection.rs"), ("actions on grammars", "lang/fall/src/editor/actions/extract_rule.rs, swap_alternatives.rs"), ("actions on Rust", "lang/rust/src/editor/actions.rs")], EN)

p("C33", "Every shipped parser is the one its grammar file describes",
  "For each shipped language the parser, the lexer and the typed accessors behave as the grammar file beside them says: the lexer has the tokens of the file with their patterns and in their order, the tokens marked skip and no others are left out by the parser; every rule has the operators, references, arguments, contexts, commit points, attributes and precedences that the file gives it, and the first rule is the entry; every typed accessor finds the child or children of the kind named in the file, in order and with the arity written there; classes and traits cover the nodes they list.",
  ["inputs"], "every text in every shipped language, every node",
  "The one test that compares the generated files with their grammars asks the generator itself: a generator that is wrong, with parsers generated anew, passes it. The other tests parse some texts of each language and leave most rules, contexts, precedences and accessors out.",
  ["lang/fall/syntax/src/fall.rs", "lang/fall/syntax/src/fall.fall", "lang/rust/syntax/src/rust.rs", "lang/rust/syntax/src/rust.fall", "lang/json/src/json.rs", "lang/bnf/src/bnf.rs", "fall/test/src"],
  [("rule tables", "create_parser_definition in each generated module"), ("lexers", "create_lexer in each generated module"), ("typed accessors", "the node, class and trait types of each generated module")], EN)

p("C34", "What a grammar file says is read as it is written",
  "For every grammar file: a token whose pattern is raw has its body as a regular expression and no fixed text, a quoted one the escaped body as expression and the body as text, and is referred to by its quoted pattern, others by their name; its external function is the second literal. A rule or token has an attribute exactly if one of its attributes has that name (skip, contextual, pratt, replaceable, replaces, cached, type), and the first of that name counts. A rule makes nodes exactly if it is public and not an expression rule, of the kind its type attribute names or else of its own name. A reference is named by its identifier or else by its literal; the context of enter, exit and is_in is the body of the literal in the first argument, other calls have none. The body of a literal is what stands between the first and the last quote of the kind it begins with; verbatim and test texts are trimmed bodies.",
  ["inputs"], "every grammar file, valid or not",
  "Tests read a handful of grammars, with one attribute per rule at most and literals without quotes or hashes inside; several attributes, attributes in another order, missing parts and both kinds of literals in each place are not covered.",
  ["lang/fall/syntax/src/ast_ext.rs"],
  [("patterns of tokens", "ast_ext.rs LexRule::token_re, token_text, token_name, extern_fn, lit_body"), ("attributes", "ast_ext.rs Attributes::find, has_attribute, SynRule::is_*, LexRule::is_*"), ("kinds of nodes", "ast_ext.rs SynRule::ty_name, type_attr"), ("references and contexts", "ast_ext.rs RefExpr::reference_name, CallExpr::context_name")], EN)

p("C35", "The Rust editor completes what is typed",
  "For every Rust file and offset: after a space, a semicolon is offered exactly if the token just before the space is the keyword let, it belongs to a let statement, that statement has neither an equals sign nor a semicolon among its children (wherever they stand), and the text behind the statement does not begin with a semicolon; nothing is offered otherwise. Expanding an expression takes the innermost expression statement around the token two bytes before the cursor and replaces the text from the begin of that statement to the cursor by a line that prints the statement's text without its last three bytes, as text and as value; nothing happens without such a token or statement or if there are no three bytes to cut off.",
  ["inputs"], "every text, every offset in it",
  "One test calls each function with a few short snippets; statements with attributes, types or initialisers, offsets between two tokens, at the begin of the file, nested statements and text behind the statement are not covered.",
  ["lang/rust/src/editor/mod.rs"],
  [("semicolon behind let", "RustEditorFile::after_space_typed"), ("expansion", "RustEditorFile::expand"), ("the token before the cursor", "RustEditorFile::leaf_before")], EN)


def design():
    """DESIGN.md from its template, the registry and the planted bugs"""
    import glob
    bugs = {}
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        bugs.setdefault(m["property"], []).append("`%s` (%s)" % (os.path.basename(os.path.dirname(f)), m["what_it_breaks"].rstrip(".")))
    out = []
    for q in P:
        out.append("### %s – %s\n" % (q["id"], q["title"]))
        s = registry.PROPS.get(q["id"])
        if s is None:
            out.append("Not applicable / not claimed: %s\n" % (q["na"] or "no check yet")); continue
        out.append("Analyses: %s. %s\n" % (", ".join("`%s` (lib/%s.py)" % (a, registry.ANALYSES[a][0]) for a in s["analyses"]), s["rule"]))
        if s.get("assumptions"): out.append("Assumes: %s.\n" % "; ".join(a for a in s["assumptions"] if a not in registry.ENGINE) if any(a not in registry.ENGINE for a in s["assumptions"]) else "Assumes only what is under Trust.\n")
        out.append("Bounds: none (all inputs); fails below %d obligations. Why tests cannot: %s\n" % (s["floor"], q["why"]))
        if q["id"] in bugs: out.append("Planted bugs caught: %s.\n" % "; ".join(bugs[q["id"]]))
        if q.get("state"): out.append(q["state"] + "\n")
    t = open(os.path.join(HERE, "tools", "DESIGN.in.md")).read()
    found = "\n".join("* " + l.strip() for l in open(os.path.join(HERE, "known_findings.txt")) if l.strip() and not l.startswith("#"))
    open(os.path.join(HERE, "DESIGN.md"), "w").write(t.replace("@@PROPS@@", "\n".join(out)).replace("@@FOUND@@", found))


def main():
    L = open(os.path.join(HERE, "properties.jsonl"), "w")
    checks, na = [], []
    for q in P:
        a = {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]]}
        L.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                            "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"], "anchors": a}, ensure_ascii=False) + "\n")
        assert len(q["title"]) <= 80, q["id"]
        if q["id"] in registry.PROPS:
            s = registry.PROPS[q["id"]]
            checks.append({"property": q["id"], "quick_cmd": "python3 check.py %s --tier quick" % q["id"],
                           "thorough_cmd": "python3 check.py %s --tier thorough" % q["id"],
                           "technique": q["tech"] or EN, "level": "other",
                           "level_note": s.get("note", s["rule"])[:1000]})
        else:
            na.append({"property": q["id"], "reason": q["na"] or "no check yet"})
    L.close()
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1, ensure_ascii=False)
    design()
    print(len(checks), "claimed,", len(na), "not applicable")


if __name__ == "__main__": main()
