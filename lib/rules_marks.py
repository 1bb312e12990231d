"""C31: highlights, outline and breadcrumbs: what the visitors of each editor add for an arbitrary node, against tables of
what is shown for each kind of node."""
from rules_format import *
from rules_text import implfn
from ast_layer import ASTNODE
SEARCH = "fall_tree::search::"

VB = "fall_tree::visitor::VisitorBuilder"
WALKS = ("process_subtree_bottom_up", "process_node", "process_subtree", "process_subtree_top_down")
TAG = "fall_editor::hl::HlTag"
FSN = "fall_editor::FileStructureNode"

# what is coloured: kind -> colour of the node, or of a child, or by what it resolves to
FALL = {"EOL_COMMENT": "comment", "HASH_STRING": "string", "SIMPLE_STRING": "string", "PARAMETER": "parameter", "ATTRIBUTES": "attribute",
        **{k: "keyword" for k in "RULE VERBATIM TOKENIZER AST NODE CLASS PUB TEST TRAIT".split()},
        "LEX_RULE": ("IDENT", "literal"), **{k: ("IDENT", "function") for k in ("SYN_RULE", "AST_NODE_DEF", "AST_TRAIT_DEF", "AST_CLASS_DEF")}}
HL = {"lang_fall_syntax": FALL, "lang_rust_syntax": {}}
OUTLINE = {"SYN_RULE": None, "TOKENIZER_DEF": "tokenizer", "AST_DEF": "ast"}
CRUMBS = {"STRUCT_DEF": "struct", "ENUM_DEF": "enum", "TRAIT_DEF": "trait", "FN_DEF": "fn"}


class MarkCk(AstCk):
    def __init__(self, S, syn):
        AstCk.__init__(self, SYNS)
        self.S, self.syn_ = S, syn
        self.roots = []
        self.ends = []           # (state, what was added for the arbitrary node)
        self.node_ = None
        self.climbed = []
        self.strs = set()        # texts and strings, whatever their type

    def kind(self, eng, n, k): return eng.cmp("Eq", eng.app("ty", n), const(k))

    def isa(self, eng, st, t, n):
        ks = sorted(self.S.kinds(t, self.syn_))
        outs, todo = [], [st]
        for k in ks:
            nxt = []
            for s in todo:
                for s2, b in eng.fork(s, self.kind(eng, n, k)): (outs if b else nxt).append((s2, True) if b else s2)
            todo = nxt
        return outs + [(s, False) for s in todo]

    def element(self, eng, t, n): return eng.app("as:" + t.split("::")[-1], n)

    def run_visitors(self, eng, st, v, n, call):
        """states after all visitors have seen one node; v: (context, base, handlers)"""
        cell = eng.fresh("ctx")
        s = st.copy()
        s.mem[("D", cell[1])] = v[3][0]
        todo = [s]
        base = v[3][1]
        if base[0] == "adt" and base[1].split("::")[-1] != "EmptyVisitor":
            fn = implfn(eng.F, base[1], "Visit", "visit")
            nxt = []
            for s in todo:
                bc = eng.fresh("base")
                s.mem[("D", bc[1])] = base
                nxt += [s2 for s2, _ in eng.call_fn(s, fn, [bc, n, cell], call)]
            todo = nxt
        for w in v[3][2][1]:
            what, clo = w[1]
            nxt = []
            for s in todo:
                if what[0] == "str": conds = [(s2, b, self.element(eng, what[1], n)) for s2, b in self.isa(eng, s, what[1], n)]
                else:
                    conds = []
                    for s2, r in self.intercept(eng, s, "core::slice::contains", [what, eng.app("ty", n)], call): conds += [(s3, b, n) for s3, b in eng.fork(s2, r)]
                for s2, b, x in conds:
                    if not b: nxt.append(s2); continue
                    nxt += [s3 for s3, _ in eng.call_closure(s2, clo, [x, cell], call)]
            todo = nxt
        return [(s, s.mem[("D", cell[1])]) for s in todo if feasible(s)]

    def intercept(self, eng, st, name, args, call):
        m, tr = call["method"], call["trait"]
        if "{closure" in name: return None
        if m == "with_dependent" and len(args) == 2: return eng.call_closure(st, args[1], [eng.app("owner", self.strof(eng, st, val(eng, st, args[0]))), eng.app("analysis", self.strof(eng, st, val(eng, st, args[0])))], call)
        if m == "measure_time" and name.startswith("fall_tree::"): return eng.call_closure(st, args[2], [], call)
        if name == ROOT: return [(st, eng.app("root", self.strof(eng, st, val(eng, st, args[0]))))]
        if name in ("fall_tree::visitor::visitor", VB + "::new"):
            base = eng.snap(st, self.strof(eng, st, val(eng, st, args[1]))) if m == "new" else ("adt", "EmptyVisitor", 0, ())
            return [(st, ("adt", "Visitors", 0, (args[0], base, ("tup", ()))))]
        if name.startswith(VB + "::") and m in ("visit", "visit_nodes"):
            v = self.strof(eng, st, args[0])
            if v[0] != "adt" or v[1] != "Visitors": raise CheckError("visitors of unknown origin")
            if m == "visit":
                t = next((tyname(t) for t in call["targs"] if tyname(t) in self.S.W), None)
                if t is None: raise CheckError("a visitor of unknown kind")
                what = ("str", t)
            else: what = eng.snap(st, args[1])
            return [(st, ("adt", "Visitors", 0, (v[3][0], v[3][1], ("tup", v[3][2][1] + (("tup", (what, args[-1])),)))))]
        if name.startswith("fall_tree::visitor::") and m in WALKS:
            v, n = self.strof(eng, st, args[1]), self.strof(eng, st, val(eng, st, args[0]))
            if v[0] != "adt" or v[1] != "Visitors": raise CheckError("visitors of unknown origin")
            if m == "process_node": return self.run_visitors(eng, st, v, n, call)
            self.roots.append((m, n))
            got = v[3][0]
            if not (got[0] in ("arr", "seq") and not eng.seq(got)): raise CheckError("the visitors do not begin with an empty list")
            for s, c in self.run_visitors(eng, st, v, self.node_, call): self.ends.append((s, eng.snap(s, c)))
            return [(st, eng.app("marks", n))]
        if name == SEARCH + "child_of_type":
            n, k = self.strof(eng, st, val(eng, st, args[0])), self.strof(eng, st, val(eng, st, args[1]))
            c = eng.app("child", n, k)
            return [(s, some(self.child(eng, n, k)) if b else NONE) for s, b in eng.fork(st, c)]
        if m == "node" and (tr == ASTNODE or name.startswith(SYNS)):
            a = self.strof(eng, st, val(eng, st, args[0]))
            x = eng.struct(a) if a[0] == "s" else None
            if x and x[0] == "app" and x[1].startswith("as:"): return [(st, x[2])]
        if m in ("name", "selector") and len(args) == 1 and (name.startswith(SYNS) or (tr or "").startswith(SYNS)): return [(st, eng.app("part:" + m, self.strof(eng, st, val(eng, st, args[0]))))]
        if m in ("into_owned", "to_string", "to_owned", "into", "from", "to_cow", "as_str", "deref", "clone") and len(args) == 1:
            x = self.strof(eng, st, val(eng, st, args[0]))
            t = call["aty"][0] if call["aty"] else None
            while t and t["k"] == "ref": t = t["to"]
            if x[0] == "str" or x in self.strs or t and t["k"] == "adt" and canon(t["def"]) == TEXT_:
                self.strs.add(x)
                return [(st, x)]
        if m in ("chars",) and args:
            x = self.strof(eng, st, val(eng, st, args[0]))
            return [(st, madt("VecIter", ("rv", eng.app("chars", x)), const(0)))]
        if m == "len_utf8": return [(st, eng.app("charlen", self.strof(eng, st, val(eng, st, args[0]))))]
        if name == "fall_tree::node::File::text": return [(st, eng.app("ftext", self.strof(eng, st, val(eng, st, args[0]))))]
        if name == TEXT_ + "::slice":
            t, r = self.strof(eng, st, val(eng, st, args[0])), self.strof(eng, st, val(eng, st, args[1]))
            return [(st, eng.app("piece", t, eng.snap(st, r)))]
        return AstCk.intercept(self, eng, st, name, args, call)

    def child(self, eng, n, k): return eng.fld(eng.app("child", n, k), 0, "0", "Some", OPTION)


class Marks(Fmt):
    def __init__(self, F, M, rep, ctx):
        Fmt.__init__(self, F, M, rep, ctx)
        self.prop = "C31"

    def setup(self, i):
        crate = canon(i["self"]).split("::")[0]
        syn = next((s for c, s in self.syn.items() if c == crate + "_syntax"), None)
        if syn is None: raise CheckError("anchor missing: grammar of %s" % crate)
        ck = MarkCk(self, syn)
        b = Bench(self.F, self.M, ck)
        b.eng.unroll = True
        ck.node_ = b.eng.fresh("node")
        return syn, b, b.eng, ck

    def num_of(self, syn, name): return self.kindval(syn, name)[2]

    def finish(self, w, b):
        ps = [p for p in b.ck.panics if feasible(p[0])]
        self.ok(w, "does not fail", not ps, "panic", lambda: "%s may panic: %s" % (w, ps[0][2]))
        for (p, kd, c), good in b.ck.asserts.items(): self.ok(w, "in range", good, "assert:%s" % kd, "%s in %s is not proved" % (kd, p))
        self.ctx.account(b.eng)


# ------------------------------------------------------------------ highlights
def items_of(e, st, v):
    v = val(e, st, v)
    if v[0] not in ("seq", "arr"): return None
    return [c[1] if c[0] == "it" else None for c in e.seq(v)]


def colour(S, ck, e, st, x):
    """(node or pair of borders, colour)"""
    x = ck.strof(e, st, x)
    if x[0] != "tup" or len(x[1]) != 2: return None
    r, t = (ck.strof(e, st, y) for y in x[1])
    if r[0] != "adt" or r[1] != RANGE or t[0] != "adt" or t[1] != TAG: return None
    lo, hi = r[3][fidx(e.F, RANGE, "start")], r[3][fidx(e.F, RANGE, "end")]
    y = e.struct(num(aff(lo))) if num(aff(lo))[0] == "s" else None
    if y and y[0] == "app" and y[1] == "nstart" and num(aff(hi)) == e.app("nend", y[2]): return y[2], t[3][0][1]
    return (lo, hi), t[3][0][1]


def of_node(e, st, v, adt):
    """[(state, name of the variant or None)] of an optional answer"""
    outs = []
    o = e.fld(v, 0, "0", "Some", OPTION)
    for s, b in e.fork_variant(st, v, 1):
        if not b: outs.append((s, None, None)); continue
        vs = e.F.adts[adt]["variants"]
        todo = [s]
        for i, x in enumerate(vs):
            nxt = []
            for s2 in todo:
                for s3, c in e.fork_variant(s2, o, i, len(vs)):
                    if c: outs.append((s3, x["name"], o))
                    else: nxt.append(s3)
            todo = nxt
    return outs


def expected(S, ck, e, st, syn, n, kind, table):
    """[(state, [(node, colour)])] for a node of one kind"""
    num_ = lambda k: const(S.num_of(syn, k))
    A = "lang_fall::analysis::query::"

    def kids(outs, n, names):
        for k in names:
            nxt = []
            for s, xs, c in outs:
                for s2, b in e.fork(s, e.app("child", n, num_(k))): nxt.append((s2, xs + [(ck.child(e, n, num_(k)), c)] if b else xs, c))
            outs = nxt
        return [(s, xs) for s, xs, _ in outs]
    t = table.get(kind)
    if isinstance(t, str): return [(st, [(n, t)])]
    if t: return kids([(st, [], t[1])], n, [t[0]])
    if not table: return [(st, [])]
    if kind == "REF_EXPR":
        return [(s, [(n, {"Token": "literal", "RuleReference": "function", "Param": "parameter"}[k])] if k else []) for s, k, _ in of_node(e, st, e.app("get:ResolveRefExpr", e.app("as:RefExpr", n)), A + "RefKind")]
    if kind == "CALL_EXPR":
        return kids([(s, [], "function" if k in (None, "RuleCall") else "builtin") for s, k, _ in of_node(e, st, e.app("get:ResolveCall", e.app("as:CallExpr", n)), A + "CallKind")], n, ["IDENT", "L_ANGLE", "R_ANGLE"])
    if kind == "METHOD_DEF":
        outs = []
        me = e.app("as:MethodDef", n)
        for s, k, o in of_node(e, st, e.app("get:ResolveMethod", me), A + "MethodKind"):
            if k != "NodeAccessor": outs.append((s, [])); continue
            c = e.fld(o, 0, "0", "NodeAccessor", A + "MethodKind")
            vs = e.F.adts[A + "ChildKind"]["variants"]
            i = vidx(e.F, A + "ChildKind", "Token")
            sel = e.app("node", e.app("part:selector", me))
            for s2, b in e.fork_variant(s, c, i, len(vs)): outs += kids([(s2, [], "literal" if b else "function")], sel, ["IDENT"])
        return outs
    return [(st, [])]


def highlight(S, i):
    syn, b, e, ck = S.setup(i)
    who = canon(i["self"]).split("::")[-1]
    w = "highlights of %s" % who
    table = HL.get(syn.crate)
    if table is None: raise CheckError("no table of colours for %s" % syn.crate)
    me, n = e.fresh("file"), ck.node_
    outs = [(s, v) for s, v in e.run(method(S, i, "highlight")[0], [b.cell(me)], b.st) if feasible(s)]
    S.ok(w, "go through the whole file once", bool(outs) and len(ck.roots) == 1 and ck.roots[0][0].startswith("process_subtree") and fileof(e, ck.roots[0][1], me, b), "walk", "do not go once through the tree of the file")
    S.ok(w, "are what the visitors find", all(ck.strof(e, s, v) == e.app("marks", ck.roots[0][1]) for s, v in outs) if ck.roots else False, "result", "are not what was found in the file")
    kinds = {k: nm for k, nm in syn.lang.names.items() if k in syn.lang.kinds}
    special = [k for k, nm in kinds.items() if nm in table or table and nm in ("REF_EXPR", "CALL_EXPR", "METHOD_DEF") or k == 0]
    seen = set()
    for st, c in ck.ends:
        xs = items_of(e, st, c)
        S.ok(w, "are a list", xs is not None and None not in xs, "list", "add an unknown number of highlights for a node")
        if xs is None or None in xs: continue
        got = [colour(S, ck, e, st, x) for x in xs]
        todo = [(st, None)]
        for k in special:       # which kind has the node?
            nxt = []
            for s, kk in todo:
                if kk is not None: nxt.append((s, kk)); continue
                for s2, t in e.fork(s, ck.kind(e, n, k)): nxt.append((s2, k if t else None))
            todo = [(s, kk) for s, kk in nxt if feasible(s)]
        for s, k in todo:
            nm = kinds.get(k) if k is not None else "any other node"
            S.ctx.count("kinds and paths")
            if k == 0:
                S.ok(w, "errors are shown", len(got) == 1 and got[0] is not None and got[0][1] == "error" and error(S, ck, e, s, n, got[0][0]), "error", "do not show an error at its node, or, where nothing stands, on the character that follows")
                seen.add(("error", len(got)))
                continue
            for s2, want in expected(S, ck, e, s, syn, n, nm, table):
                if not feasible(s2): continue
                seen.add((nm, tuple(x for _, x in want)))
                S.ok(w, "of %s" % nm, sorted(map(repr, got)) == sorted(map(repr, want)), "kind:%s" % nm, lambda: "%s: a %s may be shown as %s instead of %s" % (w, nm, [x and x[1] for x in got], [x for _, x in want]))
    for nm in [kinds[k] for k in special if k]: S.ok(w, "%s is reached" % nm, any(x[0] == nm and x[1] for x in seen), "reached:" + nm, "never show a %s" % nm)
    S.ok(w, "errors are reached", ("error", 1) in seen, "reached:error", "never show an error")
    S.finish(w, b)


def error(S, ck, e, st, n, where):
    a, z = e.app("nstart", n), e.app("nend", n)
    if e.holds(st, L.shift(L.add(aff(z), aff(a), -1), -1)) : return where == n
    # an empty error: the character that follows, if there is one
    if where == n: return nothing_follows(e, st, n)
    if not isinstance(where, tuple) or len(where) != 2 or where[0] == "s": return False
    lo, hi = where
    if not eqn(e, st, lo, a) : return False
    d = num(L.add(aff(hi), aff(lo), -1))
    if d == const(0): return nothing_follows(e, st, n)
    x = e.struct(d) if d[0] == "s" else None
    y = e.struct(x[2]) if x and x[0] == "app" and x[1] == "charlen" and x[2][0] == "s" else None
    return bool(y) and y[0] == "elem" and y[2] == const(0) and follows(e, y[1], n)


def follows(e, chars, n):
    x = e.struct(chars)
    if not x or x[1] != "chars": return False
    y = e.struct(x[2])
    if not y or y[:2] != ("app", "piece"): return False
    f = e.struct(y[2])
    r = y[3]
    return f and f[:2] == ("app", "ftext") and r[0] == "adt" and r[1].endswith("TextSuffix") and num(aff(r[3][0])) in (e.app("nstart", n), e.app("nend", n))


def nothing_follows(e, st, n):
    for i, x in enumerate(list(e.T.structs)):
        if x[:2] == ("app", "chars") and follows(e, ("s", i), n) and e.holds(st, L.neg(e.seqlen(("s", i)))): return True
    return False


def fileof(e, root, me, b):
    x = e.struct(root) if root[0] == "s" else None
    if not x or x[0] != "app": return False
    if x[1] == "root": return belongs(e, x[2], me, b)
    if x[1] in ("node",) or x[1].endswith("::node"):
        y = e.struct(x[2])
        while y and y[0] == "app" and len(y) == 3 and y[1] in ("get:AST", "analysis", "ast", "Analysis::ast"): return True
        return bool(y) and ("ast" in str(y[1]) or y[0] == "f")
    return False


# ------------------------------------------------------------------ outline
def outline(S, i):
    syn, b, e, ck = S.setup(i)
    F = S.F
    who = canon(i["self"]).split("::")[-1]
    w = "outline of %s" % who
    me, n = e.fresh("file"), ck.node_
    fn = method(S, i, "structure")[0]
    PS_ = "lang_rust::editor::file_symbols::process_symbols"
    told = []

    def symbols(ck, eng, st, args, call):
        told.append(ck.strof(eng, st, val(eng, st, args[0])))
        nm, nd = eng.fresh("symbol"), eng.fresh("symbol node")
        sub = st.copy()
        outs = []
        for s, _ in eng.call_value(sub, args[1], [nm, nd], call): outs.append((s, UNIT))
        told.append((nm, nd))
        return outs
    ck.calls[PS_] = symbols
    outs = [(s, v) for s, v in e.run(fn, [b.cell(me)], b.st) if feasible(s)]
    S.ok(w, "answers", bool(outs), "outs", "never answers")

    def entry(st, x, name, node):
        x = ck.strof(e, st, x)
        if x[0] != "adt" or x[1] != FSN: return False
        nm, r, kids = (ck.strof(e, st, x[3][fidx(F, FSN, k)]) for k in ("name", "range", "children"))
        return plain(e, nm) == name and r[0] == "adt" and r[1] == RANGE and num(aff(r[3][fidx(F, RANGE, "start")])) == e.app("nstart", node) and num(aff(r[3][fidx(F, RANGE, "end")])) == e.app("nend", node) and items_of(e, st, kids) == []
    if told:
        nm, nd = told[1]
        S.ok(w, "lists the symbols of the file", len(told) == 2 and belongs(e, told[0], me, b), "file", "does not list the symbols of the file once")
        for st, v in outs:
            xs = items_of(e, st, v)
            S.ok(w, "each symbol is listed with its name and range", xs is not None and len(xs) == 1 and xs[0] is not None and entry(st, xs[0], nm, nd), "symbol", "does not list each symbol once with its name and range")
        S.finish(w, b)
        return
    S.ok(w, "goes through the whole file once", len(ck.roots) == 1 and ck.roots[0][0].startswith("process_subtree") and fileof(e, ck.roots[0][1], me, b), "walk", "does not go once through the tree of the file")
    S.ok(w, "is what the visitors find", all(ck.strof(e, s, v) == e.app("marks", ck.roots[0][1]) for s, v in outs) if ck.roots else False, "result", "is not what was found in the file")
    kinds = {S.num_of(syn, k): k for k in OUTLINE}
    seen = set()
    for st, c in ck.ends:
        xs = items_of(e, st, c)
        S.ok(w, "is a list", xs is not None and None not in xs, "list", "adds an unknown number of entries for a node")
        if xs is None or None in xs: continue
        todo = [(st, None)]
        for k in kinds:
            todo = [y for s, kk in todo for y in ([(s, kk)] if kk is not None else [(s2, k if t else None) for s2, t in e.fork(s, ck.kind(e, n, k))])]
        for s, k in todo:
            if not feasible(s): continue
            nm = kinds.get(k)
            S.ctx.count("kinds and paths")
            if nm is None: S.ok(w, "other nodes are not listed", not xs, "other", "lists nodes that are not rules or blocks of the file"); continue
            if OUTLINE[nm]:
                S.ok(w, "%s is listed" % nm, len(xs) == 1 and entry(s, xs[0], ("str", OUTLINE[nm]), n), "kind:" + nm, "does not list a %s once with its name and range" % nm); seen.add(nm); continue
            opt_ = e.app("part:name", e.app("as:SynRule", n))
            for s2, t in e.fork_variant(s, opt_, 1):
                if not feasible(s2): continue
                if t: seen.add(nm)
                S.ok(w, "%s is listed if it has a name" % nm, len(xs) == 1 and entry(s2, xs[0], e.fld(opt_, 0, "0", "Some", OPTION), n) if t else not xs, "kind:%s" % nm, "does not list each %s once with its name and range" % nm)
    for k in OUTLINE: S.ok(w, "%s is reached" % k, k in seen, "reached:" + k, "never lists a %s" % k)
    S.finish(w, b)


def plain(e, x):
    for _ in range(5):
        y = e.struct(x) if x[0] == "s" else None
        if y and y[0] == "app" and len(y) == 3 and y[1].split("::")[-1] in ("to_string", "into_owned", "to_owned", "into", "to_cow", "from"): x = y[2]
        else: break
        while x[0] in ("ref", "rv"): x = x[1]
    return x


def analyse(F, M, rep, ctx):
    S = Marks(F, M, rep, ctx)
    impls = [i for i in F.impls if i["trait"] and canon(i["trait"]) == EFI]
    if not impls: raise CheckError("anchor missing: editors")
    for i in impls:
        highlight(S, i)
        outline(S, i)
