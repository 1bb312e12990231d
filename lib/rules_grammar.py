"""C33: the shipped parsers against the grammar files they were made from: tokens, rules, precedences, contexts, node kinds,
and the typed accessors, each as the grammar language defines them."""
import os, re
from rules_accessors import *
from rules_tables import Lang, languages
import facts as facts_

TOK = re.compile(r"""(?P<ws>\s+|//[^\n]*)|(?P<hash>r(?P<h>\#*)"(?:.|\n)*?"(?P=h))|(?P<simple>'(?:[^'\\]|\\(?:.|\n))*')|(?P<ident>\w+)|(?P<op>[=|*?.,:\#{}\[\]<>()])""")
META = set("\\.+*?()|[]{}^$#&-~")


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m: raise CheckError("the grammar file is not understood at %r" % text[i:i + 20])
        if not m.group("ws"):
            k = "hash" if m.group("hash") else "simple" if m.group("simple") else "ident" if m.group("ident") else "op"
            out.append((k, m.group()))
        i = m.end()
    return out


def body(lit):
    q = "'" if lit.startswith("'") else '"'
    return lit[lit.index(q) + 1:lit.rindex(q)]


class File:
    """a grammar file, read by the rules of the grammar language"""
    def __init__(self, text):
        self.t, self.i = tokens(text), 0
        self.lex, self.rules, self.nodes, self.classes, self.traits = [], [], [], [], []
        while self.i < len(self.t):
            a = self.attrs()
            if self.eat("tokenizer"):
                self.need("{")
                while not self.eat("}"):
                    a = self.attrs(); n = self.name(); re_ = self.lit(); ext = None
                    if self.kind() in ("simple", "hash"): ext = self.lit()
                    self.lex.append({"attrs": a, "name": n, "re": re_, "ext": body(ext) if ext else None})
            elif self.eat("verbatim") or self.eat("test"): self.lit()
            elif self.eat("ast"): self.ast()
            else:
                pub = self.eat("pub"); self.need("rule"); n = self.name(); ps = []
                if self.eat("("):
                    while not self.eat(")"): ps.append(self.name()); self.eat(",")
                self.rules.append({"attrs": a, "pub": pub, "name": n, "params": ps, "body": self.block()})

    def kind(self): return self.t[self.i][0] if self.i < len(self.t) else None
    def peek(self): return self.t[self.i][1] if self.i < len(self.t) else None
    def eat(self, x):
        if self.peek() == x and self.kind() in ("op", "ident"): self.i += 1; return True
        return False
    def need(self, x):
        if not self.eat(x): raise CheckError("the grammar file has %r where %r belongs" % (self.peek(), x))
    def name(self):
        if self.kind() != "ident": raise CheckError("the grammar file has %r where a name belongs" % self.peek())
        self.i += 1; return self.t[self.i - 1][1]
    def lit(self):
        if self.kind() not in ("simple", "hash"): raise CheckError("the grammar file has %r where a literal belongs" % self.peek())
        self.i += 1; return self.t[self.i - 1][1]

    def attrs(self):
        out = {}
        if self.eat("#"):
            self.need("[")
            while not self.eat("]"):
                n = self.name(); v = None
                if self.eat("("): v = self.name(); self.need(")")
                out.setdefault(n, v); self.eat(",")
        return out

    def block(self):
        self.need("{")
        alts = [self.seq()]
        while self.eat("|"): alts.append(self.seq())
        self.need("}")
        return ("or", alts)

    def seq(self):
        parts = []
        while self.peek() not in ("|", "}"): parts.append(self.expr())
        return ("and", parts)

    def expr(self):
        if self.peek() == "{": e = self.block()
        elif self.eat("<"):
            n, a = self.name(), []
            while not self.eat(">"): a.append(self.expr())
            e = ("call", n, a)
        elif self.kind() == "simple": e = ("ref", self.lit())
        else: e = ("ref", self.name())
        while self.peek() in ("?", "*"): e = ("opt" if self.peek() == "?" else "rep", e); self.i += 1
        return e

    def ast(self):
        self.need("{")
        while not self.eat("}"):
            k = self.name(); n = self.name(); tr = []
            if self.eat(":"):
                while self.peek() != "{": tr.append(self.name()); self.eat(",")
            self.need("{")
            if k == "class":
                vs = []
                while not self.eat("}"): vs.append(self.name())
                self.classes.append((n, vs)); continue
            ms = []
            while not self.eat("}"):
                m, c, suf = self.name(), self.name(), ""
                if self.eat("?"): suf = "?"
                elif self.eat("*"): suf = "*"
                text = self.eat(".")
                if text: self.name()
                ms.append((m, c, suf, text))
            (self.nodes if k == "node" else self.traits).append((n, tr, ms))


def scream(n): return re.sub(r"(?<=[a-z0-9])(?=[A-Z])", "_", n).upper()
def camel(n): return "".join(w[:1].upper() + w[1:] for w in n.split("_"))


class Meaning:
    """what the rules of the file ask of the parser; rules are named, everything else is written out"""
    def __init__(self, f):
        self.f = f
        self.rule = {}
        for r in f.rules: self.rule.setdefault(r["name"], r)
        self.tok = {}
        for t in f.lex: self.tok.setdefault(t["re"] if t["re"].startswith("'") else t["name"], t)

    def ty(self, r):
        if not r["pub"] or "pratt" in r["attrs"]: return None
        return scream(r["attrs"].get("type") or r["name"])

    def of(self, r):
        if "pratt" in r["attrs"]:
            b = ("pratt", [], [], [])
            for alt in r["body"][1]:
                x = self.rule[alt[1][0][1]]
                k = [k for k in ("atom", "postfix", "prefix", "bin") if k in x["attrs"]][0]
                if k == "atom": b[1].append(("rule", x["name"])); continue
                parts = x["body"][1][0][1]
                op = parts[0] if k == "prefix" else parts[1]
                p = x["attrs"][k]
                e = (self.ty(x), self.expr(x, op), int(p) if p and p.isdigit() else 999)
                if k == "prefix": b[2].append(e)
                else: b[3].append(e + (k == "bin",))
        else: b = self.expr(r, r["body"])
        t, a = self.ty(r), r["attrs"]
        if t is not None and "replaces" in a: return ("pubreplace", t, b)
        if "cached" in a: b = ("cached", b)
        return b if t is None else ("pub", t, b, "replaceable" in a)

    def expr(self, r, e):
        k = e[0]
        if k == "or": return either([self.expr(r, x) for x in e[1]])
        if k == "and":
            at = [i for i, x in enumerate(e[1]) if x[:2] == ("call", "commit")]
            return both([self.expr(r, x) for x in e[1] if x[:2] != ("call", "commit")], at[0] if at else None)
        if k in ("opt", "rep"): return (k, self.expr(r, e[1]))
        if k == "ref":
            n = e[1]
            if n in r["params"]: return ("var", (r["name"], r["params"].index(n)))
            if n in self.rule: return ("rule", n)
            t = self.tok.get(n)
            if t is None: raise CheckError("%s in the rule %s is nothing" % (n, r["name"]))
            if "contextual" in t["attrs"]: return ("word", scream(t["name"]), body(t["re"]))
            return ("token", scream(t["name"]))
        n, a = e[1], e[2]
        if n in ("eof", "any"): return (n,)
        if n == "is_in": return (n, body(a[0][1]))
        if n in ("enter", "exit"): return (n, body(a[0][1]), self.expr(r, a[1]))
        if n in ("not",): return (n, self.expr(r, a[0]))
        if n in ("layer", "with_skip", "inject"): return (n, self.expr(r, a[0]), self.expr(r, a[1]))
        if n == "prev_is": return (n, tuple(self.ty(self.rule[x[1]]) for x in a))
        x = self.rule[n]
        if len(a) != len(x["params"]): raise CheckError("the number of arguments of %s" % n)
        return ("apply", ("rule", n), tuple(((n, i), self.expr(r, y)) for i, y in enumerate(a)))


def either(xs): return xs[0] if len(xs) == 1 else ("or", tuple(xs))
def both(xs, commit): return xs[0] if len(xs) == 1 and commit is None else ("and", tuple(xs), commit)


class Table:
    """the same for the table of the parser; the rules of the file come first"""
    def __init__(self, lang, n):
        self.l, self.n = lang, n

    def ty(self, i): return self.l.names.get(self.l.kinds[i])

    def ref(self, i, depth=0):
        if i < self.n: return ("rule", i)
        if depth > 200: raise CheckError("an expression of the table contains itself")
        return self.at(i, depth + 1)

    def at(self, i, d=0):
        e = self.l.rules[i]
        k, v = (e, None) if isinstance(e, str) else list(e.items())[0]
        r = lambda j: self.ref(j, d)
        if k == "Or": return either([r(x) for x in v])
        if k == "And": return both([r(x) for x in v[0]], v[1])
        if k in ("Opt", "Rep", "Not", "Cached"): return (k.lower(), r(v))
        if k == "Pub": return ("pub", self.ty(v["ty"]), r(v["body"]), v["replaceable"])
        if k == "PubReplace": return ("pubreplace", self.ty(v["ty"]), r(v["body"]))
        if k == "Token": return ("token", self.ty(v))
        if k == "ContextualToken": return ("word", self.ty(v[0]), v[1])
        if k in ("Eof", "Any"): return (k.lower(),)
        if k == "Var": return ("var", v)
        if k == "IsIn": return ("is_in", v)
        if k in ("Enter", "Exit"): return (k.lower(), v[0], r(v[1]))
        if k in ("Layer", "Inject"): return (k.lower(), r(v[0]), r(v[1]))
        if k == "WithSkip": return ("with_skip", r(v[0]), r(v[1]))
        if k == "PrevIs": return ("prev_is", tuple(self.ty(x) for x in v))
        if k == "Call": return ("apply", r(v[0]), tuple((a, r(x)) for a, x in v[1]))
        if k == "Pratt": return ("pratt", [r(x) for x in v["atoms"]], [(self.ty(p["ty"]), r(p["op"]), p["priority"]) for p in v["prefixes"]],
                                 [(self.ty(p["ty"]), r(p["op"]), p["priority"], p["has_rhs"]) for p in v["infixes"]])
        raise CheckError("the operator %s of the table" % k)


class Match:
    """equality up to the numbering of rules, parameters and contexts"""
    def __init__(self): self.maps, self.back, self.todo = {}, {}, []

    def pair(self, sort, a, b):
        m, w = self.maps.setdefault(sort, {}), self.back.setdefault(sort, {})
        if a in m or b in w: return m.get(a) == b and w.get(b) == a
        m[a], w[b] = b, a
        if sort == "rule": self.todo.append((a, b))
        return True

    def same(self, a, b):
        """None, or where they differ"""
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and isinstance(a[0], str) and a[0] == b[0]:
            k = a[0]
            if k == "rule": return None if self.pair("rule", a[1], b[1]) else "%s is rule %s elsewhere" % (a[1], b[1])
            if k == "var": return None if self.pair("param", a[1], b[1]) else "parameter %d of %s" % (a[1][1], a[1][0])
            if k in ("is_in", "enter", "exit"):
                if not self.pair("context", a[1], b[1]): return "the context %s" % a[1]
                return self.same(a[2], b[2]) if k != "is_in" else None
            if k == "apply":
                r = self.same(a[1], b[1])
                if r or len(a[2]) != len(b[2]): return r or "the arguments of %s" % a[1][1]
                for (p, x), (q, y) in zip(a[2], b[2]):
                    if not self.pair("param", p, q): return "parameter %d of %s" % (p[1], p[0])
                    r = self.same(x, y)
                    if r: return r
                return None
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b): return "%s against %s" % (brief(a), brief(b))
            for x, y in zip(a, b):
                r = self.same(x, y)
                if r: return r
            return None
        return None if type(a) == type(b) and a == b else "%s against %s" % (brief(a), brief(b))


def brief(x):
    s = repr(x)
    return s if len(s) < 90 else s[:90] + "..."


def literal(rx, text):
    """does the pattern stand for exactly this text?"""
    out, i = "", 0
    while i < len(rx):
        if rx[i] == "\\" and i + 1 < len(rx) and not rx[i + 1].isalnum(): out += rx[i + 1]; i += 2; continue
        if rx[i] in "\\.+*?()|[]{}^$": return False
        out += rx[i]; i += 1
    return out == text


class Acc:
    def __init__(self, F, M, rep, ctx, lang, f, W, mod, where):
        self.F, self.M, self.rep, self.ctx, self.lang, self.f, self.W, self.mod, self.where = F, M, rep, ctx, lang, f, W, mod, where
        self.num = {n: k for k, n in lang.names.items()}
        self.acc = {}
        self.kinds = [k for k in lang.kinds if k in lang.names]

    def accept(self, ty):
        if ty not in self.acc: self.acc[ty] = kinds_of(self.F, self.M, self.ctx, self.W[ty], self.kinds) if ty in self.W else set()
        return self.acc[ty]

    def run(self, fn, ty, kids):
        ck = AcCk(())
        ck.W, ck.accept_ = self.W, self.accept
        b = Bench(self.F, self.M, ck)
        e = b.eng; e.unroll = True
        ck.node = e.fresh("node")
        ck.kids = tuple((k, e.fresh("child%d" % i)) for i, k in enumerate(kids))
        a = ("adt", ty, 0, (ck.node,))
        outs = [(s, v) for s, v in e.run(fn, [b.cell(a) if fn.locals[1][0]["k"] == "ref" else a], b.st) if feasible(s)]
        self.ctx.account(e)
        return e, ck, outs, any(feasible(p[0]) for p in ck.panics)

    def shape(self, e, ck, st, v, many):
        """what is answered, in terms of the children: 'dies', None or a list of (child, form)"""
        if v[0] in ("ref", "rv"): v = e.load(st, v)
        if many:
            if v[0] != "adt" or v[1] != "models::VecIter" or num(aff(v[3][1])) != const(0): return "?"
            s = v[3][0]
            if s[0] == "rv": s = s[1]
            if s[0] != "seq": return "?"
            return [self.form(e, ck, st, c[1]) for c in s[1]]
        return [self.form(e, ck, st, v)]

    def form(self, e, ck, st, v):
        if v[0] in ("ref", "rv"): v = e.load(st, v)
        for i, (_, c) in enumerate(ck.kids):
            if v == c: return (i, "node")
            x = e.struct(v) if v[0] == "s" else None
            if x and x[0] == "app" and x[-1] == c:
                if x[1].startswith("as:"): return (i, x[1][3:])
                if "text" in x[1]: return (i, "text")
            if v[0] == "adt" and len(v[3]) == 1 and v[3][0] == c: return (i, strip_ty(canon(v[1])))
        return brief(v)

    def method(self, owner, ty, meth):
        m, child, suf, text = meth
        fns = [f for p, f in self.F.fns.items() if f.name == m and f.kind == "fn" and f.argc == 1 and not f.impl_trait and owner(f)]
        what = "%s of %s is %s%s%s" % (m, ty.split("::")[-1], child, suf, ".text" if text else "")
        key = "acc:%s.%s" % (ty.split("::")[-1], m)
        if len(fns) != 1: return self.say(what, False, key, "there is no accessor %s" % m)
        fn = fns[0]
        node = [n for n, _, _ in self.f.nodes if n == child]
        cls = [vs for n, vs in self.f.classes if n == child]
        if node or cls: K, form = {self.num.get(scream(x)) for x in (cls[0] if cls else [child])}, self.mod + "::" + camel(child)
        else: K, form = {self.num.get(scream(child))}, "text" if text else "node"
        if None in K: return self.say(what, False, key, "%s is no kind of node" % child)
        some_ = sorted(K)
        other = next((k for k in self.kinds if k not in K), None)
        lists = [()] + [(k,) for k in self.kinds] + [(some_[0], some_[-1]), (some_[-1], some_[0]), (other, some_[0]), (other, some_[-1], some_[0])]
        for ks in lists:
            e, ck, outs, dies = self.run(fn, ty, ks)
            hits = [(i, form) for i, k in enumerate(ks) if k in K]
            names = " ".join(self.lang.names.get(k, "?") for k in ks) or "nothing"
            if suf == "" and not hits:
                if outs: return self.say(what, False, key, "with %s among the children there is an answer" % names)
                continue
            if len(outs) != 1 or dies: return self.say(what, False, key, "with %s among the children it has %d answers" % (names, len(outs)))
            s, v = outs[0]
            if suf == "?":
                o = opt(s, v)[0]
                if o is not bool(hits): return self.say(what, False, key, "with %s among the children there is %s" % (names, "something" if o else "nothing"))
                if not o: continue
                v = v[3][0] if v[0] == "adt" else e.fld(v, 0, "0", "Some", OPTION)
            got = self.shape(e, ck, s, v, suf == "*")
            want = hits if suf == "*" else hits[:1]
            if got != want: return self.say(what, False, key, "with %s among the children it gives %s, not %s" % (names, brief(got), brief(want)))
        self.say(what, True, key, "")

    def say(self, what, cond, key, msg):
        self.rep.ok("C33", "%s: %s" % (self.where, what), cond, "%s:%s" % (self.where, key), lambda: "%s: %s; but %s" % (self.where, what, msg))

    def all(self):
        tys = {ty.split("::")[-1]: ty for ty in self.W if ty.rsplit("::", 1)[0] == self.mod}
        for n, trs, ms in self.f.nodes:
            ty = tys.get(camel(n))
            if ty is None: self.say("the node %s" % n, False, "node:" + n, "there is no type %s" % camel(n)); continue
            self.say("%s is a node of kind %s" % (camel(n), scream(n)), self.accept(ty) == {self.num.get(scream(n))}, "node:" + n,
                     "it stands for " + (" ".join(sorted(self.lang.names[k] for k in self.accept(ty))) or "nothing"))
            for m in ms:
                self.ctx.count("accessors of grammars")
                self.method(lambda f: strip_ty(canon(f.path).rsplit("::", 1)[0]) == ty or canon(f.path).split("::{impl")[0] == ty, ty, m)
            for t in trs:
                has = any(i["trait"] and strip_ty(canon(i["trait"])) == self.mod + "::" + camel(t) and strip_ty(canon(i["self"])) == ty for i in self.F.impls)
                self.say("%s has the accessors of %s" % (camel(n), t), has, "impl:%s:%s" % (n, t), "it has not")
        for n, vs in self.f.classes:
            ty = tys.get(camel(n))
            if ty is None: self.say("the class %s" % n, False, "class:" + n, "there is no type %s" % camel(n)); continue
            self.say("%s stands for %s" % (camel(n), ", ".join(vs)), self.accept(ty) == {self.num.get(scream(v)) for v in vs}, "class:" + n,
                     "it stands for " + (" ".join(sorted(self.lang.names[k] for k in self.accept(ty))) or "nothing"))
            for v in vs:
                k = self.num.get(scream(v))
                e, good = None, False
                ck = AcCk(()); b = Bench(self.F, self.M, ck); x = b.eng.fresh("node"); ck.kids = ((k, x),)
                outs = [(s, r) for s, r in b.eng.run(self.W[ty], [x], b.st) if feasible(s)]
                self.ctx.account(b.eng)
                if len(outs) == 1 and outs[0][1][0] == "adt" and outs[0][1][3]:
                    r = outs[0][1][3][0]
                    a = self.F.adts.get(ty)
                    if r[0] == "adt" and a: good = a["variants"][r[2]]["name"] == camel(v) and r[3] and r[3][0][0] == "adt" and r[3][0][3] == (x,)
                self.say("a %s is the variant %s of %s" % (scream(v), camel(v), camel(n)), good, "variant:%s:%s" % (n, v), "it is wrapped as something else")
        for n, _, ms in self.f.traits:
            t = self.mod + "::" + camel(n)
            own = [strip_ty(canon(i["self"])) for i in self.F.impls if i["trait"] and strip_ty(canon(i["trait"])) == t]
            own = [o for o in own if o in self.W]
            for m in ms:
                self.ctx.count("accessors of grammars")
                if own: self.method(lambda f: strip_ty(canon(f.path).rsplit("::", 1)[0]) == t, own[0], m)


def grammar(F, M, rep, ctx, fn, W):
    src = fn.span.split(":")[0]
    path = os.path.join(facts_.REPO, re.sub(r"\.rs$", ".fall", src))
    where = os.path.basename(path)
    f = File(open(path, encoding="utf-8").read())
    lang = Lang(F, M, ctx, fn)
    ctx.count("grammars"); ctx.count("rules of grammars", len(f.rules))
    def say(what, cond, key, msg): rep.ok("C33", "%s: %s" % (where, what), cond, "%s:%s" % (where, key), lambda: "%s: %s; but %s" % (where, what, msg))
    # kinds of nodes
    want = [scream(t["name"]) for t in f.lex] + [scream(r["name"]) for r in f.rules if r["pub"] and "type" not in r["attrs"]]
    got = [lang.names.get(k) for k in lang.kinds[1:]]
    say("the kinds of nodes are the tokens and the public rules", sorted(want) == sorted(map(str, got)), "kinds", "differs in " + " ".join(sorted(set(want) ^ set(map(str, got)))))
    # tokens
    real = [t for t in f.lex if "contextual" not in t["attrs"]]
    say("as many lexer rules as tokens", len(real) == len(lang.lex), "lexer", "there are %d" % len(lang.lex))
    for t, (ty, rx, ext) in zip(real, lang.lex):
        n = lang.names.get(ty)
        plain = not t["re"].startswith("r")
        good = n == scream(t["name"]) and rx is not None and (literal(rx, body(t["re"])) if plain else rx == body(t["re"]))
        say("the token %s is %s" % (t["name"], t["re"]), good, "token:" + t["name"], "the lexer has %s %s" % (n, rx))
        x = ext[3][0] if ext[0] == "adt" and ext[3] else None
        for _ in range(4):
            if x is not None and x[0] in ("rv",): x = x[1]
        name = re.sub(r"<.*", "", x[1]).split("::")[-1] if x is not None and x[0] == "fn" else None if x is None else "?"
        say("the token %s is finished by %s" % (t["name"], t["ext"]), name == t["ext"], "ext:" + t["name"], "the lexer has %s" % name)
    # rules
    m, g, tb = Match(), Meaning(f), Table(lang, len(f.rules))
    if f.rules: m.pair("rule", f.rules[0]["name"], 0)
    while m.todo:
        n, i = m.todo.pop()
        d = m.same(g.of(g.rule[n]), tb.at(i))
        ctx.count("rules compared")
        say("the rule %s" % n, d is None, "rule:" + n, "in the table: %s" % d)
    return where, f, lang


def analyse(F, M, rep, ctx):
    W = wraps(F, M, ctx, None)
    for fn in languages(F):
        where, f, lang = grammar(F, M, rep, ctx, fn, W)
        for k in lang.names:
            b = Bench(F, M)
            outs = b.run(lang.info[0], [b.eng.fresh("self"), const(k)])
            ctx.account(b.eng)
            v = outs[0][1]
            ws = v[3][fidx(F, "fall_tree::node_type::NodeTypeInfo", "whitespace_like")]
            t = [t for t in f.lex if scream(t["name"]) == lang.names[k]]
            if lang.names[k] == "ERROR" and not t: continue
            w = bool(t) and "skip" in t[0]["attrs"]
            rep.ok("C33", "%s: %s is %sleft out by the parser" % (where, lang.names[k], "" if w else "not "), ws == (TRUE if w else FALSE), "%s:skip:%s" % (where, lang.names[k]),
                   lambda: "%s: %s is marked as %s" % (where, lang.names[k], "something to parse" if w else "blank"))
        Acc(F, M, rep, ctx, lang, f, W, lang.mod, where).all()
