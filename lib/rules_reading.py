"""C34: what a grammar file says is read as it is written: for rules, tokens, classes, calls and attributes with arbitrary
texts and any children, each reader of the grammar against its definition."""
from rules_accessors import *
from rules_tables import Lang, languages
from ast_layer import AstCk
from builtins_rs import it_next

GEN = ("lang_fall_syntax::fall::", "<lang_fall_syntax::fall::")
EXT = "lang_fall_syntax::ast_ext::"
TEXT = "fall_text::text::Text"
RANGE_ = "fall_text::text_range::TextRange"


class ReadCk(AstCk):
    def __init__(self, n):
        AstCk.__init__(self, GEN)
        self.n, self.seqs, self.kind, self.search = n, {}, {}, False

    def seq(self, eng, n):
        return self.seqs.get(n) or AstCk.seq(self, eng, n)

    def items(self, eng, st, seq):
        x = eng.struct(seq)
        # lists of a fixed length; what they contain is arbitrary
        return madt("VecIter", ("rv", ("arr", self.fixed(eng, x[1].split("::")[-1], x[2]))), const(0))

    def fixed(self, eng, name, owner):
        return tuple(eng.app("item:" + name, owner, const(i)) for i in range(self.n))

    def intercept(self, eng, st, name, args, call):
        m, tr, aty = call["method"], call["trait"], call["aty"]
        if name == NODE + "::ty":
            n = self.strof(eng, st, val(eng, st, args[0]))
            if n in self.kind: return [(st, const(self.kind[n]))]
        istext = bool(aty) and ("fall_text::text::Text" in aty[0]["s"] or aty[0]["s"].lstrip("&").split(" ")[-1] == "str" or "Cow<" in aty[0]["s"] or "String" in aty[0]["s"]) and "Option" not in aty[0]["s"]
        if istext and not name.startswith(GEN):
            t = self.strof(eng, st, val(eng, st, args[0]))
            c = self.strof(eng, st, val(eng, st, args[1])) if len(args) == 2 else None
            if c is not None and c[0] == "i" and not c[1] and m in ("starts_with", "find", "rfind"): c = ("str", chr(c[2]))
            if t[0] == "str" and len(args) == 2 and c[0] == "str" and m in ("eq", "ne"): return [(st, TRUE if (t == c) == (m == "eq") else FALSE)]
            if t[0] == "s":
                if m == "starts_with" and c[0] == "str":
                    # a literal begins with a quote or with an r, as the lexer has it
                    if c[1][:1] not in ("'", "r") or len(c[1]) != 1: raise CheckError("a literal is compared with %r" % c[1])
                    x = eng.app("quoted", t)
                    return [(s2, TRUE if b == (c[1] == "'") else FALSE) for s2, b in eng.fork(st, x)]
                if m in ("find", "rfind") and c is not None and c[0] == "str": return [(st, some(eng.app(m, t, c)))]
                if name == TEXT + "::slice": return [(st, eng.app("piece", t, eng.snap(st, args[1])))]
                if m == "trim": return [(st, eng.app("trim", t))]
                if m == "parse": return [(s2, ("adt", "core::result::Result", 0 if b else 1, (eng.app("number", t) if b else eng.fresh("error"),))) for s2, b in eng.fork(st, eng.app("is a number", t))]
                if m in ("to_string", "to_cow", "as_str", "to_owned", "into", "from", "deref", "as_ref", "into_owned", "clone", "as_text", "borrow"): return [(st, t)]
        if name.startswith("regex") and m == "escape": return [(st, eng.app("escape", self.strof(eng, st, val(eng, st, args[0]))))]
        if m == "new" and "Box" in name: return [(st, args[0])]
        return AstCk.intercept(self, eng, st, name, args, call)

    def on_panic(self, eng, st, name, fn, span): pass


class Reading:
    def __init__(self, F, M, rep, ctx):
        self.F, self.M, self.rep, self.ctx = F, M, rep, ctx
        fn = [f for f in languages(F) if f.path.startswith("lang_fall_syntax::")][0]
        self.num = {n: k for k, n in Lang(F, M, ctx, fn).names.items()}

    def fn(self, ty, name):
        fs = [f for g in self.F.fns.values() for f in self.F.dups.get(g.path, [g]) if f.name == name and f.kind == "fn" and canon(f.path).startswith("lang_fall_syntax::") and f.argc >= 1
              and strip_ty(canon(deref(f.locals[1][0])["s"])).split("::")[-1] == ty and not canon(f.path).startswith(GEN[0]) and "fall::" not in f.path.replace("lang_fall_syntax::", "")]
        if len(fs) != 1: raise CheckError("anchor missing: %s::%s" % (ty, name))
        return fs[0]

    def check(self, ty, name, kinds, n, want, extra=(), nested=None):
        fn = self.fn(ty, name)
        ck = ReadCk(n)
        b = Bench(self.F, self.M, ck)
        e = b.eng; e.unroll = True
        me = e.fresh("me")
        node = e.app("node", me)
        def children(of, ks):
            xs = [e.app("child%d" % i, of) for i in range(len(ks))]
            for k, x in zip(ks, xs): ck.kind[x] = self.num[k]
            ck.seqs[of] = ("seq", tuple(("it", x) for x in xs))
            return xs
        kids = children(node, kinds)
        W = World(e, ck, me, node, kids, kinds)
        if nested is not None:
            first = ck.fixed(e, "args", me)[0] if n else None
            if first is not None: W.inner, W.ikinds = children(e.app("node", first), nested), nested
        a0 = b.cell(me) if fn.locals[1][0]["k"] == "ref" else me
        args = [a0] + [("str", x) for x in extra]
        outs = [(s, v) for s, v in e.run(fn, args, b.st) if feasible(s)]
        self.ctx.account(e); self.ctx.count("readers interpreted"); self.ctx.count("paths", len(outs))
        what = "%s::%s%s with %s and %d items" % (ty, name, "(%s)" % ", ".join(extra) if extra else "", " ".join(kinds) or "no tokens", n)
        good, msg = True, ""
        for s, v in outs:
            if name == "variants":
                for s, v in drain(b, e, s, v): W.st = s; good = good and v == want(W)
                if not good: msg = "it lists others"; break
                continue
            W.st = s
            try: w = want(W)
            except Unknown as x: good, msg = False, "it answers without looking at %s" % x; break
            if w == "dies": good, msg = False, "it answers"; break
            if not W.same(w, v): good, msg = False, "it gives %s, not %s" % (W.show(v), W.show(w)); break
        if not outs and not self.dead(W, want): good, msg = False, "it has no answer"
        self.rep.ok("C34", what, good, "%s::%s" % (ty, name), lambda: "%s: %s" % (what, msg))

    def dead(self, W, want):
        W.st = None
        try: return want(W) == "dies"
        except Exception: return False


def drain(b, e, st, v):
    """the elements of a list that is made while it is read"""
    k = ("r", "drain"); st.mem[k] = v
    outs, todo = [], [(st, ())]
    while todo:
        st, xs = todo.pop()
        nx = it_next(e, st, ("ref", k, ()), None)
        if nx is None or len(xs) > 20: raise CheckError("the list is not understood")
        for s2, x in nx:
            o = opt(s2, x)[0]
            if o is None: raise CheckError("the list is not understood")
            if o: todo.append((s2, xs + (x[3][0] if x[0] == "adt" else e.fld(x, 0, "0", "Some", OPTION),)))
            else: outs.append((s2, xs))
    return outs


class Unknown(Exception): pass


def deref(t):
    while t["k"] in ("ref", "ptr"): t = t["to"]
    return t


class World:
    """what a reader should answer, on a path on which enough is known"""
    def __init__(self, e, ck, me, node, kids, kinds):
        self.e, self.ck, self.me, self.node, self.kids, self.kinds = e, ck, me, node, kids, kinds
        self.inner, self.ikinds = [], []

    def kid(self, kind, i=0):
        xs = [k for k, n in zip(self.kids, self.kinds) if n == kind]
        return xs[i] if len(xs) > i else None

    def text(self, n): return self.e.app("ntext", n)
    def get(self, name, of=None): return self.e.app("fall::" + name, self.me if of is None else of)

    def given(self, v, name):
        """an optional part: its content or None"""
        o = opt(self.st, v)[0]
        if o is None: raise Unknown(name)
        return self.e.fld(v, 0, "0", "Some", OPTION) if o else None

    def yes(self, x, what):
        d = self.e.decide(self.st, x)
        if d is None: raise Unknown(what)
        return d

    def starts(self, t, c):
        return self.yes(self.e.app("quoted", t), "how the literal begins") == (c == "'")

    def is_(self, t, c):
        k = self.ck.textof(self.e, self.st, t)
        return k == c if k is not None else self.yes(self.e.app("text=", t, ("str", c)), "what it is named")

    def body(self, t):
        q = ("str", "'" if self.starts(t, "'") else '"')
        r = [None, None]
        i = fidx(self.e.F, RANGE_, "start")
        r[i], r[1 - i] = num(L.shift(aff(self.e.app("find", t, q)), 1)), self.e.app("rfind", t, q)
        return self.e.app("piece", t, ("adt", RANGE_, 0, tuple(r)))

    def attrs(self, of=None, own=None):
        own = self.own if own is None else own
        a = self.given(self.get(own + "::attributes"), "the attributes")
        return () if a is None else self.ck.fixed(self.e, "attributes", a)

    def attr(self, name):
        """the first attribute of this name"""
        for a in self.attrs():
            if self.is_(self.get("Attribute::name", a), name): return a
        return None

    def value(self, a):
        v = self.given(self.get("Attribute::value", a), "the value")
        return None if v is None else self.text(self.e.app("node", v))

    def same(self, w, v):
        e = self.e
        if v[0] in ("ref", "rv"): v = e.load(self.st, v)
        if w is None or w[0] == "opt":
            o = opt(self.st, v)[0]
            if w is None: return o is False
            return o is True and self.same(w[1], v[3][0] if v[0] == "adt" else e.fld(v, 0, "0", "Some", OPTION))
        if w[0] == "maybe":
            return self.same(("opt", e.fld(w[1], 0, "0", "Some", OPTION)) if opt(self.st, w[1])[0] else None, v) if v != w[1] else True
        if w[0] == "bool":
            if v[0] == "b": return v[1] == w[1]
            return self.e.decide(self.st, v) == w[1]
        return v == w or e.snap(self.st, v) == w

    def show(self, v):
        return repr(v if v is None or v[0] != "s" else self.e.struct(v))[:120]


def O(x): return None if x is None else ("opt", x)
def B(x): return ("bool", bool(x))


def analyse(F, M, rep, ctx):
    R = Reading(F, M, rep, ctx)
    lits = [(), ("STRING",), ("STRING", "STRING"), ("IDENT", "STRING"), ("ATTRIBUTES", "IDENT", "STRING", "STRING")]

    def token_re(w):
        s = w.kid("STRING")
        if s is None: return None
        t = w.text(s)
        return O(w.body(t) if w.starts(t, "r") else w.e.app("escape", w.body(t)))

    def token_text(w):
        s = w.kid("STRING")
        if s is None: return None
        t = w.text(s)
        return None if w.starts(t, "r") else O(w.body(t))

    def extern_fn(w):
        s = w.kid("STRING", 1)
        return None if s is None else O(w.body(w.text(s)))

    def token_name(w):
        s = w.kid("STRING")
        if s is not None and w.starts(w.text(s), "'"): return w.text(s)
        return w.get("LexRule::node_type")

    def has(own, name):
        def f(w):
            w.own = own
            return B(w.attr(name) is not None)
        return f

    for ks in lits:
        for n, f in (("token_re", token_re), ("token_text", token_text), ("extern_fn", extern_fn), ("token_name", token_name)): R.check("LexRule", n, ks, 0, f)
    for n in range(4):
        for m, a in (("is_contextual", "contextual"), ("is_skip", "skip")): R.check("LexRule", m, (), n, has("LexRule", a))
        for m, a in (("is_pratt", "pratt"), ("is_replaceable", "replaceable"), ("is_replaces", "replaces"), ("is_cached", "cached")): R.check("SynRule", m, (), n, has("SynRule", a))

        def type_attr(w):
            w.own = "SynRule"
            return O(w.attr("type"))
        R.check("SynRule", "type_attr", (), n, type_attr)

        def find(w):
            for a in w.ck.fixed(w.e, "attributes", w.me):
                if w.is_(w.get("Attribute::name", a), "some name"): return O(a)
            return None
        R.check("Attributes", "find", (), n, find, extra=("some name",))
        R.check("Attributes", "has_attribute", (), n, lambda w: B(find(w) is not None), extra=("some name",))
    for ks in [(), ("PUB",), ("IDENT",), ("ATTRIBUTES", "PUB", "RULE", "IDENT")]:
        R.check("SynRule", "is_pub", ks, 0, lambda w: B(w.kid("PUB") is not None))
        for n in range(3):
            def ty_name(w):
                w.own = "SynRule"
                if w.kid("PUB") is None or w.attr("pratt") is not None: return None
                a = w.attr("type")
                if a is not None: return O(w.value(a))
                x = w.get("SynRule::name")
                return ("maybe", x)
            R.check("SynRule", "ty_name", ks, n, ty_name)
    R.check("VerbatimDef", "contents", (), 0, lambda w: w.e.app("trim", w.body(w.get("VerbatimDef::literal_string"))))

    def test(w):
        s = w.given(w.get("TestDef::literal_string"), "the literal")
        return None if s is None else O(w.e.app("trim", w.body(s)))
    R.check("TestDef", "contents", (), 0, test)
    for ks in [("IDENT",), ("CLASS", "IDENT", "IDENT", "IDENT"), ()]:
        R.check("AstClassDef", "name", ks, 0, lambda w: w.text(w.kid("IDENT")) if w.kid("IDENT") else "dies")
    for ks in [("IDENT",), ("CLASS", "IDENT", "IDENT", "IDENT"), ("CLASS", "IDENT", "L_CURLY", "IDENT", "R_CURLY")]:
        R.check("AstClassDef", "variants", ks, 0, lambda w: tuple(w.text(x) for x, k in zip(w.kids, w.kinds) if k == "IDENT")[1:])
    for ks in [("IDENT",), ("SIMPLE_STRING",), ("IDENT", "SIMPLE_STRING"), ("SIMPLE_STRING", "IDENT"), ()]:
        R.check("RefExpr", "reference_name", ks, 0, lambda w: w.text(w.kid("IDENT") or w.kid("SIMPLE_STRING")) if ks else "dies")
    for n in range(3):
        for inner in [(), ("SIMPLE_STRING",), ("IDENT",), ("IDENT", "SIMPLE_STRING"), ("SIMPLE_STRING", "SIMPLE_STRING")]:
            def context(w):
                f = w.get("CallExpr::fn_name")
                if not any(w.is_(f, c) for c in ("is_in", "enter", "exit")): return None
                if n == 0: return None
                s = [x for x, k in zip(w.inner, w.ikinds) if k == "SIMPLE_STRING"]
                return O(w.body(w.text(s[0]))) if s else None
            R.check("CallExpr", "context_name", (), n, context, nested=inner)

    def u32(w):
        w.own = "Attribute"
        v = w.given(w.get("Attribute::value"), "the value")
        if v is None: return None
        t = w.text(w.e.app("node", v))
        return O(w.e.app("number", t)) if w.yes(w.e.app("is a number", t), "whether it is a number") else None
    R.check("Attribute", "u32_value", (), 0, u32)

    def tv(w):
        v = w.given(w.get("Attribute::value"), "the value")
        return None if v is None else O(w.text(w.e.app("node", v)))
    R.check("Attribute", "text_value", (), 0, tv)
