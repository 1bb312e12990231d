"""C27: line numbers and the symbol index of Rust files. The line table, the automaton, the collection of the symbols of a
file and the search in them are each interpreted over MIR with arbitrary texts, symbols and queries."""
from rules_codegen import CgCk, RESULT, unref
from ast_layer import AstCk, tyname
from rules_search import Suite, opt, feasible, eqn, MON
from rules_text import Bench, fidx, RANGE
from builtins_rs import runm, val, madt, NONE, some
from absint import *
from absint import OPTION
from facts import CheckError, canon
import linear as L

E = "lang_rust::editor::"
LI, LC = E + "line_index::LineIndex", E + "line_index::LineCol"
FS = E + "symbol_index::FileSymbols"
SYM = E + "symbol_index::Symbol"
QUERY = E + "symbol_index::Query"
INDEX = E + "symbol_index::SymbolIndex"
SUB = E + "fst_subseq::FstSubSeq"
ITER = "core::iter::traits::iterator::Iterator"
PS = E + "file_symbols::process_symbols"
NL = 10
ITEMS = ("FnDef", "StructDef", "EnumDef", "TypeDef", "TraitDef", "ModDef")
TYPES = ("StructDef", "EnumDef", "TraitDef", "TypeDef")
LIMIT = 512


class TextCk(CgCk):
    """texts are opaque; characters and their lengths are functions of their position"""
    def __init__(self, F):
        CgCk.__init__(self, F)
        self.syn = ("lang_rust_syntax::", "<lang_rust_syntax::")

    def string(self, eng, st, x):
        x = self.strof(eng, st, val(eng, st, x))
        y = eng.struct(x) if x[0] == "s" else None
        while y and y[0] == "app" and y[1] in ("to_string", "to_cow", "as_str"): x = y[2]; y = eng.struct(x) if x[0] == "s" else None
        return x

    def intercept(self, eng, st, name, args, call):
        m = call["method"]
        if "{closure" not in name and args:
            if m in ("to_string", "to_cow", "to_owned", "as_str", "deref", "as_ref", "borrow", "into", "from", "clone") and len(args) == 1 and self.texty(call):
                x = self.string(eng, st, args[0])
                if x[0] in ("s", "str"): return [(st, x if not call["dty"]["s"].startswith("&") else ("rv", x))]
        return CgCk.intercept(self, eng, st, name, args, call)

    def texty(self, call):
        s = call["dty"]["s"]
        return s in ("&str", "alloc::string::String", "fall_text::text::Text<'_>") or s.startswith(("&alloc::string::String", "alloc::borrow::Cow<'_, str>")) or s.startswith("&") and s.endswith("str")


class Sy(Suite):
    def __init__(self, F, M, rep, ctx): Suite.__init__(self, F, M, rep, ctx, "C27")

    def say(self, fn, what, cond, key, msg): return self.ok(fn if isinstance(fn, str) else fn.path.replace("lang_rust::editor::", ""), what, cond, key, msg)

    def fn(self, adt, name):
        fs = [f for p, f in self.F.fns.items() if p.startswith(adt + "::") and p.split("::")[-1] == name and "{" not in p]
        if len(fs) != 1: raise CheckError("anchor missing: %s::%s" % (adt, name))
        return fs[0]

    def finish(self, b, fn):
        for k, m in b.ck.bad: self.say(fn, "as stated", False, k, m)
        ps = [p for p in b.ck.panics if feasible(p[0])]
        self.say(fn, "does not panic", not ps, "panic", "may panic (%s)" % (ps[0][2] if ps else ""))
        for (p, kind, c), good in b.ck.asserts.items():
            if kind.startswith("Overflow") or kind == "other": continue
            self.say(fn, "in range", good, "assert:%s" % kind, "%s is not proved" % kind)
        self.ctx.account(b.eng)


# ------------------------------------------------------------------ lines
class LinesCk(TextCk):
    """offsets of the characters; a line starts behind every newline and nowhere else"""
    def __init__(self, F, text):
        TextCk.__init__(self, F)
        self.text = text
        self.kind = {}

    def listof(self, eng, kind):
        s = eng.app("list:" + kind, self.text)
        self.kind[s] = kind
        return s

    def intercept(self, eng, st, name, args, call):
        m = call["method"]
        if m in ("chars", "char_indices", "bytes", "as_bytes") and "{closure" not in name and args and self.string(eng, st, args[0]) == self.text:
            s = self.listof(eng, "bytes" if m == "as_bytes" else m)
            self.lines(eng, st)
            self.scan.add(s)
            if m == "as_bytes": return [(st, ("rv", s))]
            return [(st, self.items(eng, st, s))]
        if m == "len_utf8": return [(st, self.width(eng, st, val(eng, st, args[0])))]
        return TextCk.intercept(self, eng, st, name, args, call)

    def lines(self, eng, st):
        self.s(st, "off", const(0)); self.s(st, "line", const(0)); self.s(st, "last", const(0))

    def width(self, eng, st, c):
        w = eng.app("width", c)
        eng.addfact(st, L.shift(aff(w), -1))
        return w

    def settle(self, eng, st):
        """the character at hand: has its line been recorded?"""
        c = self.g(st, "cur")
        if c is None or c[0] != "adt" or c[2] != 1: return True
        ch = self.chr(eng, st, c[3][0])
        d = eng.decide(st, eng.cmp("Eq", ch, const(NL)))
        if d is False: return True
        return False

    def chr(self, eng, st, el):
        k = self.kind.get(self.ofs(st))
        return eng.fld(el, 1, "1", "", None) if k == "char_indices" else el

    def taken(self, eng, st, child, k):
        g = self.g(st, "k")
        if g is not None and eqn(eng, st, k, g):
            if not self.settle(eng, st): self.note(eng, "missed", "goes on after a newline without recording the line behind it")
            off = self.g(st, "off")
            kd = self.kind.get(self.ofs(st))
            if kd == "char_indices":
                p = eng.fld(child, 0, "0", "", None)
                d = L.add(aff(p), aff(off), -1)
                eng.addfact(st, d); eng.addfact(st, L.neg(d))
            if kd == "bytes":
                d = L.add(aff(k), aff(off), -1)
                eng.addfact(st, d); eng.addfact(st, L.neg(d))
            self.s(st, "k", num(L.shift(aff(g), 1)))
            w = const(1) if kd == "bytes" else self.width(eng, st, self.chr(eng, st, child))
            self.s(st, "off", num(L.add(aff(off), aff(w))))
            self.s(st, "cur", MON(1, child))

    def resolve(self, eng, st):
        c = self.g(st, "cur")
        if c is not None and c[0] == "adt" and c[2] == 1 and self.settle(eng, st): self.s(st, "cur", MON(0))

    def on_push(self, eng, st, ref, item, fn):
        v = eng.load(st, ref)
        c = self.g(st, "cur")
        off = self.g(st, "off")
        if off is None: return
        if c is None or c[0] != "adt" or c[2] != 1:
            if eqn(eng, st, item, const(0)) and num(eng.seqlen(v)) == const(0): return
            self.note(eng, "extra", "records a line that begins behind no newline"); return
        ch = self.chr(eng, st, c[3][0])
        if self.kind.get(self.ofs(st)) != "bytes":
            d = L.shift(aff(self.width(eng, st, ch)), -1)      # a newline is one byte
            eng.addfact(st, L.neg(d))
        if eng.decide(st, eng.cmp("Eq", ch, const(NL))) is not True: self.note(eng, "extra", "records a line behind a character that is no newline")
        if not eqn(eng, st, item, off): self.note(eng, "where", "records a line that does not begin right behind its newline")
        self.s(st, "cur", MON(0))


def lines(S):
    F = S.F
    fn = S.fn(LI, "new")
    b = Bench(F, S.M)
    text = b.eng.fresh("text")
    b.ck = b.eng.ck = LinesCk(F, text)
    e, ck = b.eng, b.ck
    ck.pred = None
    ck.lines(e, b.st)
    outs = [(s, v) for s, v in e.run(fn, [text], b.st) if feasible(s)]
    S.say(fn, "has an outcome", bool(outs), "outs", "never returns")
    for s, v in outs:
        v = unref(e, s, v)
        if v[0] != "adt" or v[1] != LI: S.say(fn, "the table", False, "undecided", "returns something that cannot be followed"); continue
        xs = unref(e, s, v[3][fidx(F, LI, "newlines")])
        ch = e.seq(xs) if xs[0] in ("arr", "seq") else []
        S.say(fn, "the first line begins at the start", bool(ch) and ch[0][0] == "it" and eqn(e, s, ch[0][1], const(0)), "first", "does not begin the table with the start of the text")
        S.say(fn, "every newline is seen", ck.ofs(s) is not None and eqn(e, s, ck.g(s, "k"), num(e.seqlen(ck.ofs(s)))) and ck.settle(e, s), "all", "does not go through the whole text, or leaves out its last newline")
        S.ctx.count("outcomes")
    S.finish(b, fn)


class TranslateCk(TextCk):
    def __init__(self, F, table):
        TextCk.__init__(self, F)
        self.table = table

    def at(self, eng, st, i): return eng.index(st, self.table, i)

    def intercept(self, eng, st, name, args, call):
        m = call["method"]
        if m in ("upper_bound", "lower_bound", "binary_search", "equal_range") and unref(eng, st, args[0]) == self.table:
            x = unref(eng, st, args[1])
            n = num(eng.seqlen(self.table))
            outs = []
            def place(st, k, strict, lab):
                """everything before k is below x (or at it), everything from k on above (or at) it"""
                res = []
                for s, z in eng.fork(st, eng.cmp("Ge", k, const(1))):
                    if z:
                        a = self.at(eng, s, num(L.shift(aff(k), -1)))
                        eng.addfact(s, L.shift(L.add(aff(x), aff(a), -1), -1 if strict else 0))
                    for s2, y in eng.fork(s, eng.cmp("Lt", k, n)):
                        if y:
                            c = self.at(eng, s2, k)
                            eng.addfact(s2, L.shift(L.add(aff(c), aff(x), -1), 0 if strict else -1))
                        # the first line begins at 0
                        if not z and y: eng.addfact(s2, L.shift(L.add(aff(self.at(eng, s2, const(0))), aff(x), -1), 0 if strict else -1))
                        if feasible(s2): res.append(s2)
                return res
            k = eng.fresh("bound")
            eng.addfact(st, aff(k)); eng.addfact(st, L.add(aff(n), aff(k), -1))
            self.zero(eng, st, x)
            if m == "upper_bound": return [(s, k) for s in place(st, k, False, m)]
            if m == "lower_bound": return [(s, k) for s in place(st, k, True, m)]
            if m == "binary_search":
                hit = st.copy()
                eng.addfact(hit, L.shift(L.add(aff(n), aff(k), -1), -1))
                a = self.at(eng, hit, k)
                d = L.add(aff(a), aff(x), -1)
                eng.addfact(hit, d); eng.addfact(hit, L.neg(d))
                for s, y in eng.fork(hit, eng.cmp("Lt", num(L.shift(aff(k), 1)), n)):
                    if y: eng.addfact(s, L.shift(L.add(aff(self.at(eng, s, num(L.shift(aff(k), 1)))), aff(x), -1), -1))
                    outs.append((s, ("adt", RESULT, 0, (k,))))
                for s in place(st, k, True, m):
                    for s2, y in eng.fork(s, eng.cmp("Lt", k, n)):
                        if y:
                            for i in (k, const(0)) if eng.holds(s2, L.neg(aff(k))) else (k,): eng.addfact(s2, L.shift(L.add(aff(self.at(eng, s2, i)), aff(x), -1), -1))
                        outs.append((s2, ("adt", RESULT, 1, (k,))))
                return [(s, v) for s, v in outs if feasible(s)]
            raise CheckError("translate: cannot follow " + m)
        return TextCk.intercept(self, eng, st, name, args, call)

    def zero(self, eng, st, x):
        eng.addfact(st, L.shift(eng.seqlen(self.table), -1))
        z = aff(self.at(eng, st, const(0)))
        eng.addfact(st, z); eng.addfact(st, L.neg(z)); eng.addfact(st, aff(x))


def translate(S):
    F = S.F
    fn = S.fn(LI, "translate")
    b = Bench(F, S.M)
    table, x = b.eng.fresh("newlines"), b.eng.fresh("offset")
    b.ck = b.eng.ck = TranslateCk(F, table)
    e, ck = b.eng, b.ck
    ck.zero(e, b.st, x)
    me = b.cell(("adt", LI, 0, tuple(table if f["name"] == "newlines" else e.fresh(f["name"]) for f in F.adt(LI)["variants"][0]["fields"])))
    outs = [(s, v) for s, v in e.run(fn, [me, x], b.st) if feasible(s)]
    S.say(fn, "has an outcome", bool(outs), "outs", "never returns")
    n = num(e.seqlen(table))
    for s, v in outs:
        v = unref(e, s, v)
        if v[0] != "adt" or v[1] != LC: S.say(fn, "the position", False, "undecided", "returns something that cannot be followed"); continue
        line, col = v[3][fidx(F, LC, "line")], v[3][fidx(F, LC, "col")]
        # the first line begins at 0: a bound of 0 means that the table is empty
        for s1, t in e.fork(s, e.cmp("Lt", line, n)):
            if not feasible(s1): continue
            S.say(fn, "the line exists", t, "exists", "names a line that does not exist")
            if not t: continue
            a = ck.at(e, s1, line)
            S.say(fn, "the line begins at or before the offset", e.holds(s1, L.add(aff(x), aff(a), -1)), "begin", "names a line that begins behind the offset")
            S.say(fn, "the column is the distance from the begin of the line", eqn(e, s1, col, num(L.add(aff(x), aff(a), -1))), "col", "the column is not the distance from the begin of the line")
            for s2, y in e.fork(s1, e.cmp("Lt", num(L.shift(aff(line), 1)), n)):
                if not y or not feasible(s2): continue
                nx = ck.at(e, s2, num(L.shift(aff(line), 1)))
                S.say(fn, "the next line begins behind the offset", e.holds(s2, L.shift(L.add(aff(nx), aff(x), -1), -1)), "end", "names a line although the next one already begins at or before the offset")
        S.ctx.count("outcomes")
    S.finish(b, fn)


# ------------------------------------------------------------------ the automaton
def automaton(S):
    F = S.F
    pre = "<%s<'a> as fst::inner_automaton::Automaton>::" % SUB
    fs = {p.split("::")[-1]: f for p, f in F.fns.items() if p.startswith("<" + SUB) and "::Automaton>::" in p and "{" not in p}
    for want in ("start", "is_match", "accept"):
        if want not in fs: raise CheckError("anchor missing: automaton %s" % want)
    # the state is the number of bytes of the query that have been seen, in order
    for nm, fn in sorted(fs.items()):
        b = Bench(F, S.M, TextCk(F))
        e = b.eng
        q = e.fresh("query")
        me = b.cell(("adt", SUB, 0, (("rv", q),)))
        n = num(e.seqlen(q))
        k = e.fresh("seen")
        byte = e.fresh("byte")
        e.addfact(b.st, aff(k)); e.addfact(b.st, L.add(aff(n), aff(k), -1))

        def ic(eng, st, name, args, call, old=b.ck.intercept):
            if call["method"] == "len" and b.ck.string(eng, st, args[0]) == q: return [(st, n)]
            if call["method"] in ("as_bytes",) and b.ck.string(eng, st, args[0]) == q: return [(st, ("rv", q))]
            if call["method"] == "is_empty" and b.ck.string(eng, st, args[0]) == q: return [(st, eng.cmp("Eq", n, const(0)))]
            return old(eng, st, name, args, call)
        b.ck.intercept = ic
        argv = [me] + [("rv", k)] * (fn.argc >= 2) + [byte] * (fn.argc >= 3)
        outs = [(s, v) for s, v in e.run(fn, argv, b.st) if feasible(s)]
        S.say(fn, "has an outcome", bool(outs), "outs", "never returns")
        for s0, v in outs:
            v = unref(e, s0, v)
            for s, more in e.fork(s0, e.cmp("Lt", k, n)):
                if not feasible(s): continue
                if nm == "start": S.say(fn, "nothing has been seen at the start", eqn(e, s, v, const(0)), "start", "does not start with nothing seen")
                elif nm in ("is_match", "will_always_match", "can_match"):
                    for s2, t in e.fork(s, v):
                        if not feasible(s2): continue
                        if nm == "is_match": S.say(fn, "a match is a query seen whole", t != more, "match", "says %s although the query has%s been seen whole" % ("yes" if t else "no", " not" if more else ""))
                        elif nm == "will_always_match": S.say(fn, "only what has matched matches for certain", not (t and more), "always", "says yes although the query has not been seen whole")
                        else: S.say(fn, "a match is always possible", t, "can", "says no although a match is possible")
                elif nm == "accept":
                    if not more:
                        S.say(fn, "what has been seen stays seen", eqn(e, s, v, k), "keep", "changes its state after the whole query has been seen"); continue
                    for s2, t in e.fork(s, e.cmp("Eq", byte, e.index(s, q, k))):
                        if not feasible(s2): continue
                        want = num(L.shift(aff(k), 1)) if t else k
                        S.say(fn, "the next byte of the query is what counts", eqn(e, s2, v, want), "step:%s" % t, "does not go on exactly with the next byte of the query")
                else: S.say(fn, "known", False, "unknown", "cannot follow this operation of the automaton")
                S.ctx.count("outcomes")
        S.finish(b, fn)


# ------------------------------------------------------------------ the symbols of a file
class ProcCk(TextCk):
    """each visitor is run on an arbitrary node of its kind"""
    def __init__(self, F):
        TextCk.__init__(self, F)
        self.visited = []
        self.walked = []
        self.f = None

    def intercept(self, eng, st, name, args, call):
        m = call["method"]
        if name == "fall_tree::node::File::root": return [(st, eng.app("root", self.strof(eng, st, val(eng, st, args[0]))))]
        if name == "fall_tree::visitor::visitor": return [(st, ("adt", "Visitors", 0, (args[0],)))]
        if name.startswith("fall_tree::visitor::VisitorBuilder::"):
            v = unref(eng, st, args[0])
            if m == "visit" and v[0] == "adt" and v[1] == "Visitors":
                ty = [tyname(t) for t in call["targs"] if t["k"] == "adt" and "closure" not in t["s"]]
                t = next((x.split("::")[-1] for x in ty if x.startswith("lang_rust_syntax::")), None)
                self.visit(eng, st, t, v, args[1], call)
                return [(st, v)]
            raise CheckError("cannot follow %s of the visitors of a file" % m)
        if name in ("fall_tree::visitor::process_subtree_bottom_up", "fall_tree::visitor::process_node", "fall_tree::visitor::process_subtree"):
            self.walked.append((m, unref(eng, st, args[0])))
            return [(st, UNIT)]
        if self.f is not None and m in ("call_mut", "call_once", "call") and "{closure" not in name and self.same(eng, st, args[0]) == self.f:
            a = unref(eng, st, args[1])
            g = self.g(st, "said") or MON(0)
            self.s(st, "said", MON(g[2] + 1, *[eng.snap(st, self.strof(eng, st, val(eng, st, x))) for x in a[1]]))
            return [(st, UNIT)]
        if m == "node" and call["trait"] == "fall_tree::ast::AstNode": return [(st, eng.app("node", self.strof(eng, st, val(eng, st, args[0]))))]
        if m == "name" and (call["trait"] or "").endswith("::NameOwner"):
            t = eng.app("name", self.strof(eng, st, val(eng, st, args[0])))
            return [(s, some(eng.app("nameof", t)) if b else NONE) for s, b in eng.fork(st, t)]
        return TextCk.intercept(self, eng, st, name, args, call)

    def same(self, eng, st, x):
        for _ in range(6):
            if x == self.f: return x
            if x[0] in ("ref", "rv"): x = eng.load(st, x)
            elif x[0] == "s" and ("D", x[1]) in st.mem: x = st.mem[("D", x[1])]
            else: break
        return x

    def visit(self, eng, st, t, v, clo, call):
        n = eng.fresh("item")
        s = st.copy()
        ctx = eng.fresh("ctx")
        s.mem[("D", ctx[1])] = v[3][0]
        good = True
        why = ""
        for s2, _ in eng.call_closure(s, clo, [n, ctx], call):
            if not feasible(s2): continue
            g = self.g(s2, "said")
            nm = eng.app("name", n)
            d = eng.decide(s2, nm)
            if d is not False and (g is None or g[2] != 1): good, why = False, "reports a named item %s" % ("not at all" if g is None else "more than once")
            elif d is False and g is not None: good, why = False, "reports an item without a name"
            elif g is not None and (g[3][0] != eng.app("nameof", nm) or g[3][1] != eng.app("node", n)): good, why = False, "reports an item under another name or as another node"
        self.visited.append((t, good, why))


def items(S):
    F = S.F
    fn = F.fn(PS)
    b = Bench(F, S.M, ProcCk(F))
    e, ck = b.eng, b.ck
    file, f = e.fresh("file"), e.fresh("sink")
    ck.f = f
    outs = [(s, v) for s, v in e.run(fn, [b.cell(file), f], b.st) if feasible(s)]
    S.say(fn, "goes through the whole file", bool(outs) and ck.walked == [("process_subtree_bottom_up", e.app("root", file))], "walk", "does not go once through the tree of the file")
    seen = [t for t, _, _ in ck.visited]
    for t in ITEMS:
        S.say(fn, "%s is reported" % t, t in seen, "kind:" + t, "does not report %s" % t)
        S.ctx.count("kinds_of_items")
    S.say(fn, "each kind of item is reported once", len(set(seen)) == len(seen), "twice", "reports an item more than once")
    S.say(fn, "only named items are reported", set(seen) <= set(ITEMS), "extra", "reports %s" % sorted(set(map(str, seen)) - set(ITEMS)))
    for t, good, why in ck.visited: S.say(fn, "%s is reported with its name and node" % t, good, "report:%s" % t, "%s (%s)" % (why, t))
    S.finish(b, fn)


class FileCk(TextCk):
    """the symbols of a file are an arbitrary list once it has been shown what is put in it"""
    def __init__(self, F):
        TextCk.__init__(self, F)
        self.sy = self.sorted = self.mapped = None
        self.vec = None
        self.pushed = []
        self.where = None

    def lower(self, eng, x): return eng.app("lower", x)

    def key(self, eng, el): return self.lower(eng, eng.fld(el, fidx(self.F, SYM, "name"), "name", "", SYM))

    def keyclosure(self, eng, st, clo, call):
        x = eng.fresh("symbol")
        outs = eng.call_closure(st.copy(), clo, [("rv", x)], call)
        return bool(outs) and all(self.string(eng, s, v) == self.key(eng, x) for s, v in outs if feasible(s))

    def intercept(self, eng, st, name, args, call):
        m = call["method"]
        if "{closure" in name: return TextCk.intercept(self, eng, st, name, args, call)
        if name == "fall_tree::lang::Language::parse": return [(st, eng.app("parsed", self.string(eng, st, args[1])))]
        if name == "fall_tree::node::File::text": return [(st, eng.app("to_string", self.strof(eng, st, val(eng, st, args[0]))))]
        if name == LI + "::new": return [(st, eng.app("lines", self.string(eng, st, args[0])))]
        if name == LI + "::translate": return [(st, eng.app("translate", self.strof(eng, st, val(eng, st, args[0])), val(eng, st, args[1])))]
        if m == "to_lowercase" and args: return [(st, self.lower(eng, self.string(eng, st, args[0])))]
        if name == PS: return self.collect(eng, st, args, call)
        x = unref(eng, st, args[0]) if args else None
        if x is not None and x in (self.sy, self.sorted) and x is not None:
            if m in ("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key"):
                if not self.keyclosure(eng, st, args[1], call): self.note(eng, "order", "sorts the symbols by something other than their lower-case names")
                self.put(eng, st, args[0]); return [(st, UNIT)]
            if m in ("sort_by", "sort_unstable_by"):
                a, b2 = eng.fresh("a"), eng.fresh("b")
                outs = eng.call_closure(st.copy(), args[1], [("rv", a), ("rv", b2)], call)
                if not outs or any(unref(eng, s, v) != eng.app("ordered", self.key(eng, a), self.key(eng, b2)) for s, v in outs): self.note(eng, "order", "sorts the symbols by something other than their lower-case names")
                self.put(eng, st, args[0]); return [(st, UNIT)]
            if m in ("dedup", "dedup_by", "dedup_by_key", "retain", "truncate", "pop", "remove", "swap_remove", "clear", "drain", "reverse", "insert", "swap", "rotate_left", "rotate_right", "split_off"):
                self.note(eng, "loses", "changes the list of symbols (%s)" % m)
                return [(st, eng.fresh("x") if call["dty"]["s"] != "()" else UNIT)]
        if m == "cmp" and call["trait"] == "core::cmp::Ord" and len(args) == 2: return [(st, eng.app("ordered", self.string(eng, st, args[0]), self.string(eng, st, args[1])))]
        if name.startswith("alloc::vec::Vec::dedup") and self.mapped is not None:
            g = self.g(st, "named")
            if m == "dedup_by_key":
                p = ("tup", (eng.fresh("k"), eng.fresh("v")))
                outs = eng.call_closure(st.copy(), args[1], [("rv", p)], call)
                ok = bool(outs) and all(self.string(eng, s, v) == p[1][0] for s, v in outs if feasible(s))
            elif m == "dedup_by":
                p, q = ("tup", (eng.fresh("k"), eng.fresh("v"))), ("tup", (eng.fresh("k"), eng.fresh("v")))
                want = eng.cmp("Eq", p[1][0], q[1][0])
                ok = True
                for s, v in eng.call_closure(st.copy(), args[1], [("rv", p), ("rv", q)], call):
                    for s2, t in eng.fork(s, v):
                        if feasible(s2) and eng.decide(s2, want) is not t: ok = False
            else: ok = False
            if not ok: self.note(eng, "distinct", "leaves out names by something other than the name")
            self.s(st, "distinct", MON(1))
            return [(st, UNIT)]
        if name.startswith("fst::inner_map::Map") and m in ("from_iter", "new"):
            outs = runm(eng, st, "it_collect_vec", [args[0]]) if m == "from_iter" else [(st, UNIT)]
            res = []
            for s, v in outs:
                if not feasible(s): continue
                self.resolve(eng, s)
                if self.g(s, "distinct") is None: self.note(eng, "repeated", "gives a name to the map twice when two symbols share it (which fails)")
                if self.mapped is None: self.note(eng, "map", "builds the map from something other than the symbols")
                res.append((s, ("adt", RESULT, 0, (eng.app("map"),))))
            return res
        return TextCk.intercept(self, eng, st, name, args, call)

    def put(self, eng, st, r):
        """the list is in order now"""
        self.sorted = eng.app("sorted", self.sy)
        self.scan.add(self.sorted); self.mapped = self.sorted
        eng.store(st, self.vec, self.sorted)

    def collect(self, eng, st, args, call):
        self.pushed = []
        nm, nd = eng.fresh("name"), eng.fresh("node")
        s = st.copy()
        outs = eng.call_closure(s, args[1], [nm, nd], call)
        r = self.rangeof(eng, st, nd)
        li = eng.app("lines", self.text_of(eng, st, args[0]))
        lc = ("arr", tuple(eng.app("translate", li, eng.app(k, nd)) for k in ("nstart", "nend")))
        want = {"ty": eng.app("ty", nd), "name": nm, "range": r, "lc_range": lc}
        if len(self.pushed) != len(outs) or not outs: self.note(eng, "record", "does not record each item exactly once")
        for ref, sy in self.pushed:
            if sy[0] != "adt" or sy[1] != SYM: self.note(eng, "record", "records something that cannot be followed"); continue
            for k, w in want.items():
                x = sy[3][fidx(self.F, SYM, k)]
                if k == "name": x = self.string(eng, s, x)
                if x != w: self.note(eng, "record:" + k, "records a symbol with a %s that is not that of the item" % {"ty": "kind", "name": "name", "range": "range", "lc_range": "position"}[k])
            self.vec = ref
        if self.vec is None: return [(st, UNIT)]
        self.sy = eng.app("symbols")
        self.scan = {self.sy}
        eng.store(st, self.vec, self.sy)
        return [(st, UNIT)]

    def text_of(self, eng, st, f):
        f = self.strof(eng, st, val(eng, st, f))
        return self.string(eng, st, eng.app("to_string", f))

    def on_push(self, eng, st, ref, item, fn):
        it = unref(eng, st, item)
        if self.sy is None:
            self.pushed.append((eng.deref(ref), eng.snap(st, it)))
            return
        if it[0] == "tup" and len(it[1]) == 2: self.pair(eng, st, it)

    def pair(self, eng, st, it):
        """one entry of the map: the name of the symbol at hand and its number"""
        c = self.g(st, "cur")
        if c is None or c[0] != "adt" or c[2] != 1 or self.ofs(st) != self.sorted:
            if self.g(st, "again") is None: self.s(st, "again", MON(0))
            return
        k = unref(eng, st, it[1][0])
        if self.string(eng, st, k) != self.key(eng, c[3][0]): self.note(eng, "entry", "gives the map something other than the lower-case name of the symbol")
        if not eqn(eng, st, it[1][1], num(L.shift(aff(self.g(st, "k")), -1))): self.note(eng, "number", "gives the map a number that is not that of the symbol")
        self.s(st, "r", self.g(st, "k")); self.s(st, "cur", MON(0))


def symbols(S):
    F = S.F
    fn = S.fn(FS, "new")
    b = Bench(F, S.M, FileCk(F))
    e, ck = b.eng, b.ck
    ck.pred = lambda eng, st, el: True
    text = e.fresh("text")
    outs = [(s, v) for s, v in e.run(fn, [text], b.st) if feasible(s)]
    S.say(fn, "has an outcome", bool(outs), "outs", "never returns")
    S.say(fn, "symbols are put in order", ck.sorted is not None, "sorted", "does not put the symbols in the order of their names")
    for s, v in outs:
        v = unref(e, s, v)
        ck.resolve(e, s)
        good = v[0] == "adt" and v[1] == FS
        S.say(fn, "a table", good, "undecided", "returns something that cannot be followed")
        if not good: continue
        S.say(fn, "keeps every symbol", unref(e, s, v[3][fidx(F, FS, "symbols")]) == ck.sorted, "kept", "keeps something other than the symbols in order")
        S.say(fn, "keeps the map of these symbols", unref(e, s, v[3][fidx(F, FS, "map")]) == e.app("map"), "map", "keeps another map")
        S.say(fn, "every symbol's name is in the map", ck.ofs(s) == ck.sorted and ck.g(s, "skipped") is None and eqn(e, s, ck.g(s, "k"), num(e.seqlen(ck.sorted))) and eqn(e, s, ck.g(s, "r"), ck.g(s, "k")), "all", "leaves a symbol out of the map")
        S.ctx.count("outcomes")
    S.finish(b, fn)


# ------------------------------------------------------------------ searching
class ProcessCk(TextCk):
    """the map answers with the numbers of the first symbols of matching names; every symbol of such a name is looked at"""
    def __init__(self, F):
        TextCk.__init__(self, F)
        self.f = None
        self.q = self.map = self.sy = self.found = None
        self.all = None

    same = ProcCk.same
    lower = FileCk.lower
    key = FileCk.key

    def intercept(self, eng, st, name, args, call):
        m = call["method"]
        if "{closure" in name: return TextCk.intercept(self, eng, st, name, args, call)
        if m == "to_lowercase" and args: return [(st, self.lower(eng, self.string(eng, st, args[0])))]
        if name.startswith(("fst::", "<fst::")):
            if m == "search":
                a = unref(eng, st, args[1])
                if unref(eng, st, args[0]) != self.map: self.note(eng, "map", "searches another map")
                if a[0] != "adt" or a[1] != SUB or self.string(eng, st, a[3][0]) != self.q: self.note(eng, "query", "searches for something other than the query")
                return [(st, ("adt", "Search", 0, ()))]
            if unref(eng, st, args[0]) == ("adt", "Search", 0, ()):
                if m == "into_stream": return [(st, ("adt", "Search", 0, ()))]
                if m == "into_values":
                    self.s(st, "asked", MON(1)); self.s(st, "vk", const(0))
                    return [(st, self.found)]
                self.note(eng, "restrict", "restricts the search (%s)" % m)
                return [(st, unref(eng, st, args[0]))]
        if self.f is not None and m in ("call_mut", "call_once", "call") and self.same(eng, st, args[0]) == self.f:
            a = unref(eng, st, args[1])
            self.report(eng, st, unref(eng, st, a[1][0]))
            return [(st, UNIT)]
        if m == "clone" and call["dty"]["s"].endswith("symbol_index::Symbol"): return [(st, unref(eng, st, args[0]))]
        return TextCk.intercept(self, eng, st, name, args, call)

    def position(self, eng, x):
        y = eng.struct(x) if x[0] == "s" else None
        return y[2] if y and y[0] == "elem" and y[1] == self.sy else None

    def on_result(self, eng, call, args, outs):
        if call["method"] != "next": return
        for st, v in outs:
            if v[0] != "adt" or v[1] != OPTION: continue
            if v[2] == 0:
                # the end of a list: of the symbols, if they are being looked at
                self.resolve(eng, st)
                g, at = self.g(st, "pos"), self.g(st, "v")
                if at is not None and at[2] == 1 and eqn(eng, st, g, num(eng.seqlen(self.sy))) and self.g(st, "sym") == MON(0): self.s(st, "v", MON(0))
                continue
            x = unref(eng, st, v[3][0])
            y = eng.struct(x) if x[0] == "s" else None
            if not y or y[0] != "elem": continue
            if y[1] == self.found:
                if not eqn(eng, st, y[2], self.g(st, "vk")): continue
                self.resolve(eng, st)
                self.finish(eng, st)
                self.s(st, "vk", num(L.shift(aff(self.g(st, "vk")), 1)))
                self.s(st, "v", MON(1, x)); self.s(st, "pos", x); self.s(st, "sym", MON(0))
                eng.addfact(st, aff(x)); eng.addfact(st, L.shift(L.add(eng.seqlen(self.sy), aff(x), -1), -1))
            elif y[1] == self.sy:
                at = self.g(st, "v")
                if at is None or at[2] != 1: continue
                if eqn(eng, st, num(L.shift(aff(y[2]), 1)), self.g(st, "pos")): continue       # handed on by an adaptor
                self.resolve(eng, st)
                if not eqn(eng, st, y[2], self.g(st, "pos")): self.note(eng, "order", "does not look at the symbols of a name in order")
                if self.g(st, "sym") != MON(0): self.note(eng, "skip", "leaves out a symbol of a matching name")
                self.s(st, "pos", num(L.shift(aff(self.g(st, "pos")), 1)))
                self.s(st, "sym", MON(1, x))
                self.resolve(eng, st)

    def finish(self, eng, st):
        at = self.g(st, "v")
        if at is not None and at[2] == 1: self.note(eng, "rest", "goes on although there may be more symbols of the matching name")
        if self.g(st, "sym") not in (None, MON(0)): self.note(eng, "skip", "leaves out a symbol of a matching name")

    def first(self, eng, st):
        at = self.g(st, "v")
        return eng.index(st, self.sy, at[3][0])

    def named(self, eng, st, x):
        """does the symbol at hand have the name that matched?"""
        p = self.position(eng, x)
        if p is not None and eqn(eng, st, p, self.g(st, "v")[3][0]): return True
        a, b = self.key(eng, x), self.key(eng, self.first(eng, st))
        if a == b: return True
        return eng.decide(st, eng.cmp("Eq", a, b))

    def wanted_(self, eng, st, x):
        a = eng.decide(st, self.all)
        if a is True: return True
        t = eng.fld(x, fidx(self.F, SYM, "ty"), "ty", "", SYM)
        ds = [eng.decide(st, eng.cmp("Eq", t, const(k))) for k in self.kinds]
        if any(d is True for d in ds): return True
        if a is False and all(d is False for d in ds): return False
        return None

    def resolve(self, eng, st):
        c, at = self.g(st, "sym"), self.g(st, "v")
        if c is None or c[2] != 1 or at is None: return
        x = c[3][0]
        if at[2] == 1:
            n = self.named(eng, st, x)
            if n is False: self.s(st, "v", MON(0)); self.s(st, "sym", MON(0)); return
            if n is True and self.wanted_(eng, st, x) is False: self.s(st, "sym", MON(0))

    def on_assume(self, eng, st, c, v): self.resolve(eng, st)

    def invariants(self, eng, st):
        out = []
        if self.g(st, "vk") is not None: out.append(L.add(eng.seqlen(self.found), aff(self.g(st, "vk")), -1))
        if self.g(st, "pos") is not None: out.append(L.add(eng.seqlen(self.sy), aff(self.g(st, "pos")), -1))
        return tuple(out)

    def report(self, eng, st, x):
        self.resolve(eng, st)
        c, at = self.g(st, "sym"), self.g(st, "v")
        if c is None or c[2] != 1 or at is None or at[2] != 1 or x != c[3][0]: self.note(eng, "other", "reports something other than the symbol at hand"); return
        if self.named(eng, st, x) is not True: self.note(eng, "name", "reports a symbol whose name need not match")
        if self.wanted_(eng, st, x) is not True: self.note(eng, "kind", "reports a symbol that is no type although only types were asked for")
        self.s(st, "sym", MON(0))

    def on_push(self, eng, st, ref, item, fn): pass


def kinds_of_types(S):
    """numbers of the node kinds of types, from their wrappers"""
    F = S.F
    out = {}
    for p, f in F.fns.items():
        if f.name == "wrap" and (f.impl_trait or "").endswith("::AstNode") and "lang_rust_syntax::rust::" in p:
            t = p.split(" as ")[0].split("::")[-1].split("<")[0]
            if t not in TYPES: continue
            b = Bench(F, S.M, AstCk(("\0",)))
            n = b.eng.fresh("node")
            ks = set()
            for s, v in b.eng.run(f, [n], b.st):
                v = unref(b.eng, s, v)
                if v[0] == "adt" and v[2] == 1:
                    ty = b.eng.app("ty", n)
                    for k in range(1, 500):
                        if b.eng.decide(s, b.eng.cmp("Eq", ty, const(k))) is True: ks.add(k)
            if len(ks) != 1: raise CheckError("cannot tell the node kind of " + t)
            out[t] = ks.pop()
    if set(out) != set(TYPES): raise CheckError("anchor missing: kinds of types")
    return out


def search(S):
    F = S.F
    fn = S.fn(QUERY, "process")
    b = Bench(F, S.M, ProcessCk(F))
    e, ck = b.eng, b.ck
    q, mp, sy, al, f = (e.fresh(x) for x in ("query", "map", "symbols", "all", "sink"))
    ck.q, ck.map, ck.sy, ck.all, ck.f = q, mp, sy, al, f
    ck.found = e.app("found", q, mp)
    ck.kinds = sorted(kinds_of_types(S).values())
    me = b.cell(("adt", QUERY, 0, tuple({"query": q, "all_symbols": al}[x["name"]] for x in F.adt(QUERY)["variants"][0]["fields"])))
    file = b.cell(("adt", FS, 0, tuple({"symbols": sy, "map": mp}[x["name"]] for x in F.adt(FS)["variants"][0]["fields"])))
    outs = [(s, v) for s, v in e.run(fn, [me, file, f], b.st) if feasible(s)]
    S.say(fn, "has an outcome", bool(outs), "outs", "never returns")
    for s, v in outs:
        ck.resolve(e, s)
        S.say(fn, "the map is searched to the end", ck.g(s, "asked") is not None and eqn(e, s, ck.g(s, "vk"), num(e.seqlen(ck.found))), "all", "does not go through all matching names")
        at = ck.g(s, "v")
        S.say(fn, "all symbols of the last name are looked at", at is None or at[2] == 0, "last", "stops although there may be more symbols of the matching name")
        S.say(fn, "the last symbol is not left out", ck.g(s, "sym") in (None, MON(0)), "lastsym", "leaves out a symbol of a matching name")
        S.ctx.count("outcomes")
    S.finish(b, fn)


class QueryCk(TextCk):
    """what is searched for: the characters of the query in lower case, without the marks"""
    MARK = 35

    def __init__(self, F, text):
        TextCk.__init__(self, F)
        self.text = text

    def stripped(self, eng, st, x):
        """the text with its marks taken out"""
        return x == eng.app("unmarked", self.text)

    def intercept(self, eng, st, name, args, call):
        m = call["method"]
        if "{closure" in name: return TextCk.intercept(self, eng, st, name, args, call)
        if args and m in ("contains", "find", "replace", "to_lowercase", "chars", "trim", "trim_matches", "trim_start_matches", "trim_end_matches", "starts_with", "ends_with") and (name.startswith(("core::str::", "alloc::str::", "alloc::string::"))):
            x = self.string(eng, st, args[0])
            pat = val(eng, st, args[1]) if len(args) > 1 else None
            mark = pat in (("str", "#"), const(self.MARK))
            if m == "contains" and x == self.text and mark: return [(st, eng.app("marked", x))]
            if m == "replace" and x in (self.text, eng.app("lowered", self.text)) and mark and val(eng, st, args[2]) == ("str", ""): return [(st, eng.app("unmarked" if x == self.text else "wanted", x if x == self.text else self.text))]
            if m == "to_lowercase": return [(st, eng.app("wanted", self.text) if self.stripped(eng, st, x) else eng.app("lowered", x) if x == self.text else eng.app("lower", x))]
            if m == "chars" and x == self.text:
                l = eng.app("list:chars", x)
                self.scan.add(l)
                return [(st, self.items(eng, st, l))]
            return [(st, eng.app(m, x, *[val(eng, st, y) for y in args[1:]]))]
        if m in ("to_lowercase", "to_ascii_lowercase") and call["targs"] == [] and name.startswith("core::char"):
            return [(st, self.lowlist(eng, val(eng, st, args[0])) if m == "to_lowercase" else eng.app("ascii", val(eng, st, args[0])))]
        if call["trait"] == ITER and m == "flat_map" and (args[1][0] == "fn" and args[1][1].endswith("::to_lowercase") or args[1][0] == "clo" and self.lowers(eng, st, args[1], call)):
            return [(st, ("adt", "Lower", 0, (args[0],)))]
        if call["trait"] == ITER and m in ("collect",) and call["dty"]["s"].endswith("String"):
            it = args[0]
            if it[0] == "adt" and it[1] == "Lower":
                outs = runm(eng, st, "it_collect_vec", [it[3][0]])
                return [(s, eng.app("wanted", self.text) if self.complete(eng, s) else eng.fresh("string")) for s, v in outs]
        return TextCk.intercept(self, eng, st, name, args, call)

    def lowers(self, eng, st, clo, call):
        c = eng.fresh("c")
        outs = eng.call_closure(st.copy(), clo, [c], call)
        return bool(outs) and all(v == self.lowlist(eng, c) for s, v in outs)

    def lowlist(self, eng, c): return eng.app("lowchars", c)

    def complete(self, eng, st):
        self.resolve(eng, st)
        k = self.g(st, "k")
        return k is not None and self.g(st, "skipped") is None and eqn(eng, st, k, num(eng.seqlen(self.ofs(st)))) and eqn(eng, st, self.g(st, "r"), k)

    def on_push(self, eng, st, ref, item, fn):
        self.resolve(eng, st)
        c = self.g(st, "cur")
        it = unref(eng, st, item)
        if c is None or c[0] != "adt" or c[2] != 1 or it != c[3][0]:
            self.note(eng, "char", "searches for a character that is not the one at hand"); return
        if self.pred(eng, st, it) is not True: self.note(eng, "mark", "searches for the mark itself")
        self.s(st, "r", self.g(st, "k")); self.s(st, "cur", MON(0))


def query(S):
    F = S.F
    fn = S.fn(QUERY, "new")
    b = Bench(F, S.M)
    text = b.eng.fresh("text")
    b.ck = b.eng.ck = QueryCk(F, text)
    e, ck = b.eng, b.ck

    def pred(eng, st, el):
        d = eng.decide(st, eng.cmp("Eq", el, const(ck.MARK)))
        return None if d is None else not d
    ck.pred = pred
    outs = [(s, v) for s, v in e.run(fn, [text], b.st) if feasible(s)]
    S.say(fn, "has an outcome", bool(outs), "outs", "never returns")
    for s, v in outs:
        v = unref(e, s, v)
        if v[0] != "adt" or v[1] != QUERY: S.say(fn, "a query", False, "undecided", "returns something that cannot be followed"); continue
        S.say(fn, "searches for what was asked", ck.string(e, s, v[3][fidx(F, QUERY, "query")]) == e.app("wanted", text), "wanted", "does not search for the characters asked for, in lower case and without the mark")
        S.say(fn, "a mark asks for all symbols", v[3][fidx(F, QUERY, "all_symbols")] == e.app("marked", text) or e.decide(s, v[3][fidx(F, QUERY, "all_symbols")]) is not None and e.decide(s, v[3][fidx(F, QUERY, "all_symbols")]) == e.decide(s, e.app("marked", text)), "all", "the mark does not decide whether all symbols are asked for")
        S.ctx.count("outcomes")
    S.finish(b, fn)


class IndexCk(TextCk):
    """every file of the index is asked; what it answers is reported under its path"""
    def __init__(self, F):
        TextCk.__init__(self, F)
        self.q = self.acc = None
        self.files = []
        self.reported = None

    def intercept(self, eng, st, name, args, call):
        m = call["method"]
        if "{closure" in name: return TextCk.intercept(self, eng, st, name, args, call)
        if name == "indxr::FileIndex::process_files":
            self.file(eng, st, args[1], call)
            return [(st, UNIT)]
        if name == QUERY + "::process": return self.ask(eng, st, args, call)
        if m == "clone" and "Path" in call["dty"]["s"]: return [(st, self.strof(eng, st, val(eng, st, args[0])))]
        if m in ("to_path_buf", "to_owned") and "Path" in call["dty"]["s"]: return [(st, self.strof(eng, st, val(eng, st, args[0])))]
        return TextCk.intercept(self, eng, st, name, args, call)

    def ask(self, eng, st, args, call):
        q, f = (self.strof(eng, st, val(eng, st, x)) for x in args[:2])
        if q != self.q: self.note(eng, "query", "asks a file for something else")
        if f != self.value: self.note(eng, "file", "asks another file")
        self.s(st, "asked", MON(1 + (self.g(st, "asked") or MON(0))[2]))
        # one of its answers
        y = eng.fresh("symbol")
        s = st.copy()
        self.pushes = []
        outs = eng.call_closure(s, args[2], [y], call)
        ok = bool(outs) and len(self.pushes) == len(outs)
        for ref, it in self.pushes:
            ok = ok and ref == self.accref and it == ("tup", (self.path, y))
        self.pushes = None
        if not ok: self.note(eng, "answer", "does not report each answer of a file once, with the path of the file")
        eng.store(st, self.accref, eng.fresh("answers"))
        return [(st, UNIT)]

    pushes = None

    def on_push(self, eng, st, ref, item, fn):
        if self.pushes is not None:
            it = unref(eng, st, item)
            self.pushes.append((eng.deref(ref), ("tup", tuple(unref(eng, st, x) for x in it[1])) if it[0] == "tup" else it))
        else: self.note(eng, "invented", "reports something that no file answered")

    def file(self, eng, st, clo, call):
        f = eng.fresh("file")
        self.path, self.value = eng.fresh("path"), eng.fresh("value")
        ad = self.F.adt("indxr::IndexedFile")["variants"][0]["fields"]
        fv = ("adt", "indxr::IndexedFile", 0, tuple({"path": self.path, "value": self.value}.get(x["name"], eng.fresh(x["name"])) for x in ad))
        s = st.copy()
        outs = [(s2, v) for s2, v in eng.call_closure(s, clo, [("rv", fv)], call) if feasible(s2)]
        good = bool(outs)
        for s2, v in outs:
            g = self.g(s2, "asked")
            if g is None or g[2] != 1: self.note(eng, "asked", "does not ask each file once")
            n = eng.seqlen(eng.load(s2, self.accref))
            for s3, t in eng.fork(s2, v):
                if t and feasible(s3) and not eng.holds(s3, L.shift(n, -LIMIT)): self.note(eng, "limit", "stops before there are enough answers")
        self.files.append(good)


def index(S):
    F = S.F
    # one pass over the files
    fn = S.fn(INDEX, "process_query")
    b = Bench(F, S.M, IndexCk(F))
    e, ck = b.eng, b.ck
    ck.q = e.fresh("query")
    acc = e.fresh("answers")
    accp = b.cell(acc, "acc")
    ck.accref = e.deref(accp)
    me = b.cell(("adt", INDEX, 0, (e.fresh("index"),)))
    outs = [(s, v) for s, v in e.run(fn, [me, b.cell(ck.q), accp], b.st) if feasible(s)]
    S.say(fn, "the files of the index are gone through once", bool(outs) and ck.files == [True], "files", "does not go once through the files of the index")
    S.finish(b, fn)
    # types first, then everything
    fn = S.fn(INDEX, "query")
    b = Bench(F, S.M, CallsCk(F))
    e, ck = b.eng, b.ck
    text = e.fresh("text")
    ck.text = text
    me = b.cell(("adt", INDEX, 0, (e.fresh("index"),)))
    outs = [(s, v) for s, v in e.run(fn, [me, text], b.st) if feasible(s)]
    S.say(fn, "has an outcome of each kind", len(outs) >= 2, "outs", "does not both find types and look for everything")
    first = ("first", text)
    for s, v in outs:
        g = ck.g(s, "passes")
        passes = g[3] if g is not None else ()
        al = e.app("all", text)
        n = len(passes)
        good = n >= 1 and passes[0] == al
        S.say(fn, "asks for what was asked", good, "first", "does not first ask for what the query says")
        if not good: continue
        res1 = e.app("answers", const(1))
        empty = e.decide(s, e.cmp("Eq", num(e.seqlen(res1)), const(0)))
        a = e.decide(s, al)
        want = True if empty is True and a is False else False if empty is False or a is True else None
        S.say(fn, "everything is looked through exactly if no type was found", want is not None and want == (n == 2) and n <= 2 and (n < 2 or passes[1] == TRUE), "second", "looks through all symbols although types were found, or does not although none was")
        S.say(fn, "returns what was found", unref(e, s, v) == e.app("answers", const(n)), "result", "returns something other than what was found")
        S.ctx.count("outcomes")
    S.finish(b, fn)
    # what the index is made of
    fn = S.fn(INDEX, "new")
    b = Bench(F, S.M, MadeCk(F))
    e, ck = b.eng, b.ck
    roots = e.fresh("roots")
    outs = [(s, v) for s, v in e.run(fn, [roots], b.st) if feasible(s)]
    S.say(fn, "has an outcome", bool(outs), "outs", "never returns")
    for s, v in outs:
        v = unref(e, s, v)
        S.say(fn, "the index of the Rust files below the roots", v[0] == "adt" and v[1] == INDEX and unref(e, s, v[3][0]) == e.app("index", e.app("set", roots, ("str", "rs"))), "set", "does not index the Rust files below the roots")
    S.say(fn, "a file's value is its symbols", ck.made == [True], "value", "the value of a file is not the symbols of its text, or there is one although it cannot be read")
    S.finish(b, fn)


class CallsCk(TextCk):
    text = None

    def intercept(self, eng, st, name, args, call):
        if name == QUERY + "::new":
            x = self.string(eng, st, args[0])
            return [(st, ("adt", QUERY, 0, tuple(eng.app("all", x) if f["name"] == "all_symbols" else eng.app("wanted", x) for f in self.F.adt(QUERY)["variants"][0]["fields"])))]
        if name == INDEX + "::process_query":
            q = unref(eng, st, args[1])
            if q[0] != "adt" or q[3][fidx(self.F, QUERY, "query")] != eng.app("wanted", self.text): self.note(eng, "query", "asks for something else"); return [(st, UNIT)]
            g = self.g(st, "passes") or MON(0)
            a = q[3][fidx(self.F, QUERY, "all_symbols")]
            old = eng.load(st, eng.deref(args[2]))
            if g[3] and num(eng.seqlen(old)) != const(0) and not eqn(eng, st, num(eng.seqlen(old)), const(0)): self.note(eng, "twice", "asks again although something was found")
            self.s(st, "passes", MON(0, *(g[3] + (a,))))
            eng.store(st, eng.deref(args[2]), eng.app("answers", const(len(g[3]) + 1)))
            return [(st, UNIT)]
        return TextCk.intercept(self, eng, st, name, args, call)


class MadeCk(TextCk):
    def __init__(self, F):
        TextCk.__init__(self, F)
        self.made = []

    def intercept(self, eng, st, name, args, call):
        if name == "indxr::IndexableFileSet::new": return [(st, eng.app("set", unref(eng, st, args[0]), val(eng, st, args[1])))]
        if name == "indxr::FileIndex::new":
            p = eng.fresh("path")
            ok = None
            for s, v in eng.call_closure(st.copy(), args[1], [("rv", p)], call):
                if not feasible(s): continue
                v = unref(eng, s, v)
                some_, x = opt(s, v)
                r = s.vars.get(eng.app("read", p)[1])
                text = eng.fld(eng.app("read", p), 0, "0", "Ok", RESULT)
                good = r is not None and some_ is not None and some_ == (r == 0) and (not some_ or x is not None and unref(eng, s, x) == eng.app("symbols", text))
                ok = good if ok is None else ok and good
            self.made.append(ok is True)
            return [(st, eng.app("index", unref(eng, st, args[0])))]
        if name in ("file::get_text", "std::fs::read_to_string"): return [(st, eng.app("read", self.strof(eng, st, val(eng, st, args[0]))))]
        if name == FS + "::new": return [(st, eng.app("symbols", self.string(eng, st, args[0])))]
        return TextCk.intercept(self, eng, st, name, args, call)


def analyse(F, M, rep, ctx):
    S = Sy(F, M, rep, ctx)
    lines(S)
    translate(S)
    automaton(S)
    items(S)
    symbols(S)
    search(S)
    query(S)
    index(S)
