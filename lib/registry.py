"""Which analyses decide which property."""
from facts import Facts, build_models, CheckError


class Ctx:
    def __init__(self, tier):
        self.tier = tier
        self._F = self._M = None
        self.cnt = {}
        self.opaque = {}
        self.stuck = set()
        self.fns = set()
        self.steps = 0

    @property
    def F(self):
        if self._F is None: self._F = Facts()
        return self._F

    @property
    def M(self):
        if self._M is None: self._M = Facts(build_models())
        return self._M

    def account(self, eng):
        self.steps += eng.steps
        self.fns |= {f for f, _ in eng.visited}
        for f in eng.stuck: self.stuck.add(f)
        for k, v in eng.opaque.items(): self.opaque[k] = self.opaque.get(k, 0) + v

    def count(self, k, n=1): self.cnt[k] = self.cnt.get(k, 0) + n

    def coverage(self, analyses):
        d = dict(self.cnt)
        d["functions_in_workspace"] = len(self.F.fns)
        if self.fns:
            d["functions_interpreted"] = sorted(self.fns)
            d["abstract_steps"] = self.steps
            d["opaque_calls"] = sorted(self.opaque)
        return d


# a loop that cannot end is a violation of what the analysed functions are for
ENDS = {"parser": "C01 C07 C11 C26", "lexer": "C01 C09 C10 C26", "text": "C14 C15", "tree": "C01 C02 C26", "salvage": "C08 C26", "search": "C16 C17", "query": "C18"}


def run(name, ctx, rep):
    import importlib
    mod, fn = ANALYSES[name]
    ctx.stuck = set()
    getattr(importlib.import_module(mod), fn)(ctx.F, ctx.M, rep, ctx)
    if name in ENDS:
        rep.ok(ENDS[name], "every loop the %s analysis enters can end" % name, True, "", "")
        for f in sorted(ctx.stuck): rep.bad(ENDS[name], "endless:" + f, "a loop in %s can be entered in a state from which it never ends" % f)


ANALYSES = {
    "parser": ("rules_parser", "analyse"),
    "lexer": ("rules_lexer", "analyse"),
    "text": ("rules_text", "analyse"),
    "tree": ("rules_tree", "analyse"),
    "salvage": ("rules_salvage", "analyse"),
    "tables": ("rules_tables", "analyse"),
    "search": ("rules_search", "analyse"),
    "query": ("rules_query", "analyse"),
    "share": ("rules_share", "analyse"),
    "codegen": ("rules_codegen", "analyse"),
    "analysis": ("rules_analysis", "analyse"),
    "accessors": ("rules_accessors", "analyse"),
    "actions": ("rules_actions", "analyse"),
    "order": ("rules_order", "analyse"),
    "index": ("rules_index", "analyse"),
    "symbols": ("rules_symbols", "analyse"),
    "position": ("rules_position", "analyse"),
    "refs": ("rules_refs", "analyse"),
    "format": ("rules_format", "analyse"),
    "effects": ("rules_effects", "analyse"),
    "grammar": ("rules_grammar", "analyse"),
    "reading": ("rules_reading", "analyse"),
    "typing": ("rules_typing", "analyse"),
    "marks": ("rules_marks", "analyse"),
}

ENGINE = ["the abstract interpreter (lib/absint.py, lib/builtins_rs.py), the models of std iterators (models/models.rs) and rustc's MIR",
          "machine integers do not overflow (token counts and offsets fit u32; one contextual token spans fewer than 2^16 raw tokens)"]

PROPS = {
    "C03": {"analyses": ["parser"], "floor": 500, "assumptions": ENGINE,
            "rule": "Abstract interpretation of the recursive-descent engine over MIR under an assume/guarantee contract for nested rules: for every grammar operator, every outcome and both modes, a failed rule leaves event log, prev and replacement as they were and a match appends exactly one well-nested chunk."},
    "C04": {"analyses": ["parser"], "floor": 200, "assumptions": ENGINE,
            "rule": "Same interpretation in lookahead mode: no outcome changes the event log, the mode flag is restored, negative lookahead restores prev and replacement, and only Not/Layer/WithSkip guards switch the mode."},
    "C05": {"analyses": ["parser"], "floor": 200, "assumptions": ENGINE,
            "rule": "Same interpretation: contexts and rule arguments are restored on every outcome, a nested rule sees exactly the context set by Enter/Exit and the arguments bound by Call, forwarded parameters are resolved in the caller's frame."},
    "C06": {"analyses": ["parser", "tree"], "floor": 150, "assumptions": ENGINE,
            "rule": "A monitor automaton over the nested calls and event-log writes of the operator-precedence loop: atoms, then prefixes, then admissible infix operators in order; operand priorities; re-parenting of exactly the left operand."},
    "C07": {"analyses": ["parser", "tree"], "floor": 200, "assumptions": ENGINE,
            "rule": "A per-operator monitor over nested calls: which rule is tried where, in which order, when an operator succeeds, fails and where the match ends, and which events it adds."},
    "C01": {"analyses": ["lexer", "parser", "tree"], "floor": 300, "assumptions": ENGINE + ["a language's whitespace binder keeps at most the tokens it is given (proved for the shipped ones)"],
            "rule": "Abstract interpretation of relexing, of the recursive-descent engine and of the event-to-tree conversion over MIR: raw tokens are pushed for the text without gap or overlap until it is exhausted, every matched rule records exactly the tokens between where it started and where it ended, the root records all tokens (leftovers in an error node), reordering of forward parents is a permutation of the log, and the conversion makes one leaf per recorded token and per whitespace token, in order, with its length."},
    "C02": {"analyses": ["tree"], "floor": 40, "assumptions": ENGINE,
            "rule": "Every tree-builder operation is interpreted over MIR from a symbolic builder state and its writes compared with the specification (range of a leaf, extension of the parent, links of parent, sibling and children); who-may-write scan of node fields; the conversion drives the builder with a well-nested sequence; readers follow exactly these links."},
    "C09": {"analyses": ["lexer", "tree"], "floor": 20, "assumptions": ENGINE + ["copied pieces of an edit lie inside the old text, and the new text is the edit's result (established by the callers of reparse)", "m_lexer returns a non-empty prefix of the text it is given"],
            "rule": "Abstract interpretation of relex with ghost counters for the text produced, the old text passed and the edit pieces seen: at every push the token is either lexed from the rest of the new text at the ghost position, or is an old token that lies inside the current copied piece, ends before its end, and stands at the ghost position; every old token was compared with ERROR before."},
    "C10": {"analyses": ["lexer"], "floor": 15, "assumptions": ENGINE,
            "rule": "Abstract interpretation of lex, relex, RegexLexer::new and next_token: token k+1 of the kind table is the kind of rule k, each rule is registered in order under its own number, pattern and function, tokens take kind and length of the match, lexing resumes at the ghost position and ends with the text."},
    "C14": {"analyses": ["text"], "floor": 35, "assumptions": ENGINE,
            "rule": "Every range operation is interpreted over MIR with symbolic operands; on each outcome its result is compared, by linear arithmetic, with its meaning on half-open intervals, and it may panic only where that meaning is undefined. Every function that makes a TextRange (found by scanning all MIR for aggregates and field writes) provably makes start <= end; Text::slice, indexing and every reader of a Text touch exactly the text's own part of the buffer."},
    "C15": {"analyses": ["text", "tree"], "floor": 15, "assumptions": ENGINE,
            "rule": "Each builder operation is interpreted over MIR from an arbitrary builder state: the pieces it appends (up to empty and adjacent copies), the new offset and the positions it refuses equal the specification of the operation. TextEdit::apply is interpreted with a ghost piece counter: each append adds the text of exactly the next piece, and all pieces are appended when it returns."},
    "C26": {"analyses": ["parser", "lexer", "tree"], "floor": 200, "assumptions": ENGINE,
            "rule": "Every index, slice, subtraction and panic reached by the abstract interpretation of lexer and parser is proved unreachable or in range."},
    "C29": {"analyses": ["tree"], "floor": 20, "assumptions": ENGINE,
            "rule": "The conversion from events to the tree is interpreted over MIR with ghosts for the raw token at hand, the extent of the whitespace that starts there and the answer of the binder: each question names the node at hand, its side and all adjacent whitespace tokens in order, and the node starts or ends exactly where the answer says."},
    "C08": {"analyses": ["parser", "tree", "salvage"], "floor": 80, "assumptions": ENGINE + ["the previous events account for the previous tokens (C01) and the event count of a Cached event is that of its subtree (C03)", "cached rules are self-delimiting: their last token does not change its kind when text is inserted right after it"],
            "rule": "salvage_segments is interpreted over MIR with ghosts for the events, raw tokens and text passed and the new text produced by the edit so far: a subtree is offered only whole, without an error node, when its text lies inside one copied piece, under its own rule and at the place that text has after the edit, with exactly its events and tokens. The lookup and replay of an offered subtree are checked in the interpretation of the parsing engine, and what is salvaged comes from the same previous parse and edit."},
    "C11": {"analyses": ["tables", "parser"], "floor": 1000, "assumptions": ["serde_json reads the table literal as the declared Expr", "the operators call their operands where C07 says (checked there)"],
            "rule": "The rule tables are constants of the program, found in MIR by interpreting the functions that build a ParserDefinition. Over all instantiations (rule, arguments in force) reachable from the start rule: least fixpoint of 'may match without consuming', no repeated body and no operator of an expression rule has it, and the graph of rules invoked before anything is consumed has no cycle. The loops of the engine themselves advance (interpretation of the repetition and skipping operators)."},
    "C16": {"analyses": ["search"], "floor": 40, "assumptions": ENGINE + ["tree shape (C02), text slices (C14) and the text-edit builder (C15) are as decided there"],
            "rule": "FileEdit's functions are interpreted over MIR on an opaque node and opaque request lists: monitors check that each node is either deleted, replaced by the first text recorded for it, or has its children edited in order, that text recorded after it is inserted at its end afterwards, that the walk starts at the root on the file's own text, and that replacing a range rebuilds the covering node's text around exactly that range."},
    "C17": {"analyses": ["search"], "floor": 200, "assumptions": ENGINE + ["tree shape is as decided under C02 (children tile their parent)"],
            "rule": "Every search, traversal and visitor is interpreted over MIR on an opaque node whose children are an opaque sequence (with the tiling facts of C02): scan monitors check that no candidate is passed over and only qualifying nodes are handed out, recursive calls go to each child once in order under the function's own contract, offsets decide borders by linear arithmetic."},
    "C18": {"analyses": ["query"], "floor": 80, "assumptions": ENGINE + ["std's Mutex and HashMap do what they document", "derived Eq, Hash and Clone compare or copy every field"],
            "rule": "The memoisation protocol (QExecutor::execute) is interpreted over MIR with ghosts for the locks held and for what the table is known to say in the current critical section, everything being forgotten when a lock is released: an answer is stored only where the table has none, stored and returned answers agree, diagnostics are reported exactly where the answer is stored, no query runs under a lock. A dataflow over all MIR finds the guards live at each call, and the resolved call graph what may be locked or called there: the lock order has no cycle. The dependency graph of the queries (call sites of DB::get reachable from each) has no cycle, query keys are compared by derived code."},
    "C28": {"analyses": ["share"], "floor": 100, "assumptions": ["rustc's auto-trait solver and the soundness of std, lazy_static and self_cell"],
            "rule": "The type checker's Send and Sync facts for every type reachable from files, nodes, languages, analyses and editor files (through fields, type arguments and all implementors of trait objects); every field of such a type with interior mutability is a lock in the metrics or the memo tables; no raw pointers, no unsafe implementation of Send or Sync, no mutable statics, no unsafe operation that could write through a shared reference."},
    "C19": {"analyses": ["analysis", "codegen"], "floor": 100, "assumptions": ENGINE + ["tree visitors call their function for every node of the type (C17)", "answers are computed once and their reports kept (C18)", "std's hash tables do what they document"],
            "rule": "Over the resolved call graph: the queries whose own code reaches a report. The driver is interpreted over MIR: each of them is asked, those with a key for every node of the key's type, before the reports are taken, and all reports are returned under a sort key that puts errors first and then goes by position. Every query body is interpreted over an opaque syntax tree: an outcome without an answer has reported, or the path has established one of the listed reasons why there is nothing to answer; the scanning queries report every element they do not find unobjectionable."},
    "C20": {"analyses": ["codegen", "analysis"], "floor": 500, "assumptions": ENGINE + ["a syntax node's accessors are functions of the node", "names in one grammar are unique where the diagnostics demand it"],
            "rule": "Resolution of calls, references and operator rules and every function of the compiler are interpreted over MIR on an opaque syntax tree. Each outcome is compared with the meaning of the construct it is for: the operation of its name, its operands in order, the rule, token, parameter or context that was resolved and the number it was given; lists have one image for each element in order; what cannot be resolved is an error."},
    "C13": {"analyses": ["accessors"], "floor": 10, "assumptions": ENGINE + ["serde_json reads the table literal as the declared Expr", "AstChildren yields the children its type accepts (C17)", "texts of tokens have the form the lexer gives them"],
            "rule": "Every accessor of a typed node (found by its receiver) is interpreted over MIR on a node without children and on one with a single child of each kind: the kinds without which it panics are what it promises. An effect analysis of the grammar tables over all instantiated rules, with commit points, layers, operator tables and replacements, computes for each kind of node whether every way it can come about, also an unfinished one, adds such a child."},
    "C21": {"analyses": ["order", "analysis"], "floor": 300, "assumptions": ["tera and serde_json write what they are given in its order", "std's ordered collections go by Ord"],
            "rule": "Over the resolved call graph from the compiler, the diagnostics and the parser: every call with an unordered collection, or an iterator over one, among its arguments, results or type arguments is classified; items may be looked up, counted, folded by operations that do not depend on the order, put in ordered or unordered collections, or into a list that is sorted before any other use; they may not be listed, formatted, serialised, hidden behind a trait object or gone through with effects. No clock (but for measurements, which are not read back), no ambient state, no address as a number. The reports are returned under a key that orders any two that differ."},
    "C22": {"analyses": ["actions"], "floor": 60, "assumptions": ENGINE + ["a syntax node's accessors and the tree searches are functions of the node (C28, C17)", "children of a node lie one after the other (C02), and edits of whole nodes can be applied (C16)", "AstChildren yields the children its type accepts (C17)"],
            "rule": "The tables of actions are constants found in MIR. Each listed function is interpreted over an opaque tree with an unknown 'apply' flag: no path that answers with nothing in one mode is compatible with a path that answers with something in the other, with the flag set the answer is an edit, and nothing panics; parents and parts an action takes for granted are looked up in the effect analysis of the grammar (C13). The dispatch of every editor is interpreted with the actions as unknown functions of what they are given: the listed names are those whose action answers when asked not to apply, for exactly the arguments it is applied to, and a name applies the one action of that name and returns what it yields."},
    "C23": {"analyses": ["position"], "floor": 150, "assumptions": ENGINE + ["positions given are borders of characters of the file", "the tree is a tree and its texts are the file's (C02), searches by position hold what C17 decides, accessors find what the grammar guarantees (C13), visitors are called for their kinds (C16)"],
            "rule": "Every public function of the editors that takes an offset or a range, every action of the tables of actions and every function of nodes they use is found by its type and interpreted over MIR for an arbitrary file and position. Nodes are opaque but lie inside each other as the way they were reached says (children, ancestors, leaves at an offset, covering nodes, parts found by accessors, kinds that the grammar only puts at or directly below the root). At every place that hands a position on - leaf and covering node searches, slices of the text, edits, other actions - it is proved to be inside what is asked and between two characters; every subtraction is proved not to underflow, no panic is reachable (each unwrap by the grammar or by an element known to be in the list searched), and ranges in answers lie inside the file."},
    "C24": {"analyses": ["refs"], "floor": 400, "assumptions": ENGINE + ["ancestors, subtree and leaf searches hold what C16 and C17 decide, visitors are called for their kinds (C16), accessors find what the grammar guarantees (C13)", "the analysis gives the same answer whenever it is asked the same (C18)", "go-to-definition and find-usages are the methods of those names of the grammar editor's file"],
            "rule": "Both queries are interpreted over MIR for an arbitrary file and caret, with opaque providers of references and declarations: they look at the same token around the caret; go-to-definition answers with what stands for the declaration of the first reference among the ancestors, find-usages stops at the first ancestor that is a declaration under the caret or a reference that resolves, and a monitored scan of the whole file lists the place of exactly those references that resolve to that declaration. Then the providers are interpreted for an arbitrary node: every node of a kind is a reference or none is, whatever a resolving query of the analysis can answer with leads to a declaration (each variant with a target, from the enum definitions), the analysis is asked about the reference itself, and the declaration found at the target's node is the one the reference leads to, field by field. By the grammar no declaration stands inside a reference."},
    "C25": {"analyses": ["index"], "floor": 25, "assumptions": ENGINE + ["what is at a path does not change while one event about it is handled (a later change is another event)", "notify numbers its events as in version 4, and reports them", "an index entry is only ever stored by the code analysed, so every key passes the filter"],
            "rule": "The handling of one event is interpreted over MIR with an opaque file system, filter, mapper and directory listing (a monitored scan of an arbitrary list of entries), the lock as a ghost and every operation on the index recorded in order: everything at or below the path is taken out, nothing else is, then exactly the files that exist, pass the filter and yield a value are stored under their own path, and the mapper is never called under the lock. The watching thread is interpreted up to a fixed point of its endless loop: before the first event every root has been indexed and is watched recursively by a watcher that stays alive; each kind of event has been handled for each of its paths before the next one is awaited. Reading hands every entry to the sink until it has seen enough, and the index handed out is the one that is watched."},
    "C27": {"analyses": ["symbols"], "floor": 90, "assumptions": ENGINE + ["the map of fst answers a search with the numbers stored under the names that the automaton accepts, and refuses a name given twice", "sorting is stable and by the key given; upper_bound and binary_search are what they say on an ascending table", "names and queries are compared byte by byte, in lower case as the standard library makes it"],
            "rule": "The line table is interpreted for an arbitrary text: a line is recorded exactly behind each newline, at the sum of the lengths of the characters before it; the line of an offset begins at or before it, the next one behind it, and the column is the distance. The automaton is compared, outcome by outcome, with a counter of the bytes of the query seen in order. Each kind of named item is visited once and reported with its own name and node; what is recorded of it is its kind, name, range and positions; the list is only ordered by lower-case name, nothing is taken out, and the map takes each name to its first symbol (a monitored scan); a search goes on from there through all symbols of the name, reporting those wanted, and asks every file, until there are at least 512 answers. Types are looked for first unless the query is marked, everything only if there was none."},
    "C30": {"analyses": ["format"], "floor": 60, "assumptions": ENGINE + ["an edit of nodes becomes the text edit asked for (C16), neighbours are those in the parent (C17)", "leaving out blanks next to an angle bracket does not join tokens: no token of the grammar language but the bracket begins with < or is continued by >"],
            "rule": "The reformat method of every editor is interpreted over MIR with an opaque file and edit. A function that goes through the tree by calling itself is run on an arbitrary node (its other arguments as first given, which each inner call must repeat, for each child once); on each path the requests recorded are exactly those that a table of the blanks wanted next to each kind of token calls for, given what the path knows of the node's kind and its neighbours. An editor without a format asks for nothing."},
    "C31": {"analyses": ["marks"], "floor": 100, "assumptions": ENGINE + ["a visitor calls the function given for the kind of a node with that node, and child queries return what they say (C17, C13)", "references are resolved as the language says (C20), symbols are collected as C27 says"],
            "rule": "The functions that colour a file, mark its errors and list its outline are interpreted over MIR: the walk over all nodes is monitored for an arbitrary node, every function registered for a kind is run on an arbitrary node of it, and on each path what is marked (range and class) or listed (name, range) is compared with a table of what that kind of node should show, given what the path knows of its parts. The range of an error is its node's, or, if that is empty, the length of the character that follows (none at the end of the file)."},
    "C32": {"analyses": ["effects"], "floor": 150, "assumptions": ENGINE + ["the searches for leaves, covering nodes, ancestors and neighbours find what they should (C17), accessors find the parts they name (C13)", "a request to the edit becomes the text edit asked for (C16)", "the lists of parameters of a type are gone through in the same way however long they are: lists of up to two lifetimes and two types are interpreted"],
            "rule": "Every action of the tables of actions is interpreted over MIR for an arbitrary file and selection. Texts are built piece by piece, the requests made to the edit are recorded, and walks along neighbours, ancestors and children are monitored; on each path that yields an edit the requests must be exactly those the action stands for, about nodes in the place where it promises to act. Extending a selection is interpreted in the same way, case by case of the leaves at the cursor. The editors hand the selection, or where it begins, to each action."},
    "C33": {"analyses": ["grammar"], "floor": 500, "assumptions": ENGINE + ["children of a kind or type are found as C17 says; the answers of an accessor depend on the kinds of the children alone: lists of none, one, two and three children are interpreted, one for every kind", "the functions pasted into a parser by hand (verbatim) are not compared"],
            "rule": "Each grammar file in the tree is read by the definition of the grammar language (tokens with attributes, rules with parameters and attributes, expressions, precedences, node, class and trait definitions) and each generated parser module is taken from the constants of the compiled program (rule table, lexer rules, node kinds and their names). Both are written out as expressions over rule names, kinds and texts; beginning with the first rule, every rule reached is compared with its entry in the table, up to the numbering of rules, parameters and contexts; the list of lexer rules is compared in order. Every typed accessor, wrapper and class of the generated code is interpreted for lists of children and must answer as its definition in the grammar file says."},
    "C34": {"analyses": ["reading"], "floor": 60, "assumptions": ENGINE + ["the accessors made from the grammar find the parts they name (C33, C13), the operations on texts are those of the text library (C14)", "the answers depend on the kinds and order of the children and on the texts alone: lists of up to three attributes or arguments and the lists of tokens that the grammar allows are interpreted, their texts are arbitrary", "literals begin with a quote or with an r (the lexer, C33)"],
            "rule": "Every function that reads the meaning of a grammar file from its syntax tree (patterns, names, attributes, kinds of nodes, contexts, literals) is interpreted abstractly with children of each kind and symbolic texts; on every path the answer must be the one its definition gives under what the path has found out about names, literals and optional parts, and the path must have found out enough to give it."},
    "C35": {"analyses": ["typing"], "floor": 80, "assumptions": ENGINE + ["the leaves at an offset, the ancestors and the children of a node are what the tree library says (C17, C02)", "the text of a node and pieces of texts are those of the text library (C14); edits are applied as asked (C15)"],
            "rule": "The functions that answer while Rust code is typed are interpreted abstractly for an arbitrary file and offset, with every leaf, kind, enclosing statement and child forked; on every path the path must have found out what the definition of the answer asks for, and the answer (the text offered, the piece replaced and the text written) must be the one defined for that case; every case must be reached."},
    "C12": {"analyses": ["tables"], "floor": 1000, "assumptions": ["serde_json reads the table literal as the declared Expr"],
            "rule": "The same tables: every reference to a rule, node kind, context, argument slot and commit point is in range, every parameter used on any call chain from the start rule is bound by it, every atom of an expression rule and every injected prefix begins with a node of its own (first-event analysis), every kind is described by node_type_info (interpreted for each kind), kinds and names are distinct, tokens wanted by rules are produced by the lexer, and plain lexical patterns match at least one character."},
}
