"""C24: go-to-definition and find-usages. Both queries are interpreted over an opaque tree with opaque providers of
references and declarations (what they scan, where they stop, what they list); then the providers are interpreted for
every node, and every kind of target a reference can have is followed back to the declaration found at that target."""
from rules_position import *

AN = "lang_fall::analysis::Analysis"
RESOLVERS = {"resolve_reference", "resolve_call", "resolve_method"}
REFS = "lang_fall::editor::references"


class RefCk(PosCk):
    def __init__(self, S):
        PosCk.__init__(self, S)
        self.given = {}          # (type of the answer, node) -> answer of the provider
        self.lists_ = []         # lists gone through
        self.x = None            # the offset
        self.mode = None
        self.anc = None
        self.names = {}
        self.through = set()     # providers to look into
        self.pred = lambda eng, st, el: self.verdict(eng, st, el)

    # -- which list
    def phase(self, st):
        g = self.g(st, "of")
        return None if g is None else g[2]

    def go(self, eng, st, xs, n, phase):
        if xs not in self.lists_: self.lists_.append(xs)
        st.mem[("G", "of")] = MON(phase, const(self.lists_.index(xs)))
        self.begin(eng, st, n)

    def listof(self, st):
        g = self.g(st, "of")
        return None if g is None else self.lists_[aff(g[3][0])[1]]

    def on_result(self, eng, call, args, outs):
        def look(st, v):
            if v[0] == "adt" and v[1] == OPTION and v[2] == 1 and v[3][0][0] in ("ref", "rv"): return some(eng.load(st, v[3][0]))
            return v
        if call["method"] == "next":
            for st, v in outs:
                self.of = self.listof(st)
                if self.of is not None: self.node = self.of; NodeCk.on_result(self, eng, call, args, [(st, look(st, v))])
        PosCk.on_result(self, eng, call, args, outs) if self.of is None else None

    def on_variant(self, eng, st, i, idx, path): self.resolve(eng, st)

    def invariants(self, eng, st):
        out = list(PosCk.invariants(self, eng, st) or ())
        k, of = self.g(st, "k"), self.listof(st)
        if k is not None and of is not None: out.append(L.add(aff(num(eng.seqlen(of))), aff(k), -1))
        return out

    # -- what providers say about an element
    def reference(self, eng, st, el):
        """(is there a reference, the reference)"""
        v = self.given.get(("ref", el))
        return self.answer(eng, st, v)

    def answer(self, eng, st, v):
        if v is None: return None, None
        is_some, _ = opt(st, v)
        return is_some, eng.fld(v, 0, "0", "Some", OPTION)

    def resolved(self, eng, st, el):
        has, r = self.reference(eng, st, el)
        if not has: return has, None
        return self.answer(eng, st, self.given.get(("res", r)))

    def nav(self, eng, st, d):
        """range that stands for a declaration; None if it is not known which"""
        has, nm = opt(st, self.field(eng, d, "name_ident"))
        if has is None: return None
        n = eng.fld(self.field(eng, d, "name_ident"), 0, "0", "Some", OPTION) if has else self.field(eng, d, "node")
        return self.mkrange(eng, *self.bounds(eng, st, n))

    def field(self, eng, v, k):
        i = next((i for i, f in enumerate(eng.F.adt(self.S.DECL)["variants"][0]["fields"]) if f["name"] == k), None)
        if i is None: raise CheckError("anchor missing: %s::%s" % (self.S.DECL, k))
        return eng.fld(v, i, k, "", self.S.DECL)

    def at(self, eng, st, d):
        """is the caret on the declaration?"""
        r = self.nav(eng, st, d)
        if r is None: return None
        lo, hi = self.rng(eng, r)
        if self.le(eng, st, lo, self.x) and self.le(eng, st, self.x, hi): return True
        for p, q in ((lo, self.x), (self.x, hi)):
            if eng.holds(st, L.shift(L.add(aff(p), aff(q), -1), -1)): return False
        return None

    def declared(self, eng, st, el):
        """(is the caret on a declaration, the declaration)"""
        has, d = self.answer(eng, st, self.given.get(("decl", el)))
        if not has: return has, None
        return self.at(eng, st, d), d

    def same(self, eng, st, d, e):
        if d == e: return True
        return eng.decide(st, eng.cmp("Eq", self.field(eng, d, "node"), self.field(eng, e, "node")))

    def differs(self, eng, st, d, e):
        if self.same(eng, st, d, e) is False: return True
        x, y = self.field(eng, d, "name_ident"), self.field(eng, e, "name_ident")
        if eng.decide(st, eng.cmp("Eq", x, y)) is False: return True
        a, b = opt(st, x)[0], opt(st, y)[0]
        if a is not None and b is not None and a != b: return True
        return eng.decide(st, eng.cmp("Eq", *[eng.fld(v, 0, "0", "Some", OPTION) for v in (x, y)])) is False and a is True

    def verdict(self, eng, st, el):
        ph = self.phase(st)
        if ph == 1:
            has, r = self.reference(eng, st, el)
            if self.mode == "def": return has
            there, _ = self.resolved(eng, st, el)
            dec, _ = self.declared(eng, st, el)
            if there or dec: return True
            if there is False and dec is False: return False
            return None
        if ph == 2:
            there, d = self.resolved(eng, st, el)
            if not there: return there
            want = self.g(st, "decl")
            if want is None: return None
            if self.differs(eng, st, d, want): return False
            return True if self.same(eng, st, d, want) else None
        return None

    # -- calls
    def equality(self, eng):
        fs = [f for p, f in eng.F.fns.items() if p.startswith("<" + self.S.DECL) and p.endswith("core::cmp::PartialEq>::eq")]
        if len(fs) != 1: raise CheckError("anchor missing: equality of declarations")
        return fs[0]

    def equal(self, eng, st, args, call):
        """options of declarations are compared as the type says"""
        a, b = (self.strof(eng, st, x) for x in args)
        outs = []
        for s2, x in eng.fork_variant(st, a, 1):
            for s3, y in eng.fork_variant(s2, b, 1):
                self.resolve(eng, s3)
                if x != y: outs.append((s3, FALSE))
                elif not x: outs.append((s3, TRUE))
                else:
                    vs = []
                    for v in (a, b):
                        w = eng.fld(v, 0, "0", "Some", OPTION)
                        vs.append(w if w[0] in ("ref", "rv") else ("rv", w))
                    for s4, t in eng.call_fn(s3, self.equality(eng), vs, call):
                        for s5, d in eng.fork(s4, t): outs.append((s5, TRUE if d else FALSE))
        return outs

    def intercept(self, eng, st, name, args, call):
        m, tr = call["method"], call["trait"]
        if name == "<indirect>":
            f = self.strof(eng, st, args[0])
            x = eng.struct(f) if f[0] == "s" else None
            ns = [self.strof(eng, st, val(eng, st, a)) for a in args[1:]]
            if x and x[0] == "f" and x[3][0] == "T":
                r = ("s", x[3][1])
                mine = [n for n in ns if n[0] == "s" and (eng.struct(n) or ("",))[0] == "f" and eng.struct(n)[3] == x[3]]
                self.demand(eng, st, "references are resolved by their own nodes", len(mine) == 1)
                v = eng.app("resolve", r)
                self.given[("res", r)] = v
                return [(st, v)]
        if m in ("eq", "ne") and tr == "core::cmp::PartialEq" and call["aty"] and tyname(call["aty"][0]) == self.S.DECL and name not in eng.F.fns:
            a = [self.strof(eng, st, x) for x in args]
            return [(s, v if m == "eq" else eng.notv(v)) for s, v in eng.call_fn(st, self.equality(eng), [("rv", x) for x in a], call)]
        if m in ("eq", "ne") and tr == "core::cmp::PartialEq" and call["aty"] and tyname(call["aty"][0]) == OPTION and self.S.DECL in call["aty"][0]["s"]:
            return [(s, v if m == "eq" else eng.notv(v)) for s, v in self.equal(eng, st, args, call)]
        if name == SEARCH + "ancestors":
            n = self.strof(eng, st, val(eng, st, args[0]))
            out = PosCk.intercept(self, eng, st, name, args, call)
            xs = eng.app("ancestors", n)
            st.mem[("G", "leaf")] = n
            st.mem[("G", "sig")] = ("tup", tuple(("tup", (("s", i), TRUE if t else FALSE)) for i, t in sorted(st.bools.items())))
            self.go(eng, st, xs, n, 1)
            return out
        if name == SEARCH + "subtree":
            n = self.strof(eng, st, val(eng, st, args[0]))
            self.demand(eng, st, "usages are looked for in the whole file", n == self.root(eng))
            xs = eng.app("subtree", n)
            d = self.sought(eng, st)
            self.demand(eng, st, "usages are those of the declaration at the caret", d is not None)
            self.go(eng, st, xs, n, 2)
            if d is not None: st.mem[("G", "decl")] = d
            return [(st, self.items(eng, st, xs))]
        was = len(self.alone)
        r = PosCk.intercept(self, eng, st, name, args, call)
        if r is not None and len(r) == 1 and self.modular and name in self.alone and self.S.ofnodes(name):
            k = self.S.answers(name)
            if k:
                ns = [self.strof(eng, st, val(eng, st, a)) for a, t in zip(args, self.S.F.fns[name].locals[1:]) if tyname(t[0]) == NODE]
                if len(ns) == 1:
                    self.given[(k, ns[0])] = r[0][1]
                    self.names.setdefault(k, set()).add(name)
        return r

    def sought(self, eng, st):
        """the declaration at the caret: the one the scan of the ancestors stopped at"""
        self.resolve(eng, st)
        c = self.g(st, "cur")
        if self.phase(st) != 1 or c is None or c[0] != "adt" or c[2] != 1: return None
        el = c[3][0]
        dec, d = self.declared(eng, st, el)
        if dec: return d
        there, d = self.resolved(eng, st, el)
        return d if there else None

    def on_push(self, eng, st, ref, item, fn):
        PosCk.on_push(self, eng, st, ref, item, fn)
        if self.phase(st) != 2: return
        self.resolve(eng, st)
        c = self.g(st, "cur")
        if c is None or c[0] != "adt" or c[2] != 1: self.note(eng, "emit", "lists something that is no usage"); return
        el = c[3][0]
        if self.verdict(eng, st, el) is not True: self.note(eng, "emit", "lists a reference that need not lead to the declaration")
        has, r = self.reference(eng, st, el)
        if has:
            i = next((i for i, f in enumerate(eng.F.adt(self.S.REF)["variants"][0]["fields"]) if tyname(f["ty"]) == NODE), None)
            n = eng.fld(r, i, eng.F.adt(self.S.REF)["variants"][0]["fields"][i]["name"], "", self.S.REF)
            if self.strof(eng, st, item) != self.mkrange(eng, *self.bounds(eng, st, n)): self.note(eng, "image", "lists something other than where the reference is")
        self.s(st, "r", self.g(st, "k"))
        self.s(st, "cur", MON(0))
        self.s(st, "n", num(L.shift(aff(self.g(st, "n") or const(0)), 1)))


class Refs(Position):
    def __init__(self, F, M, rep, ctx):
        Position.__init__(self, F, M, rep, ctx)
        self.prop = "C24"
        self.REF, self.DECL = (self.adt(n) for n in ("Reference", "Declaration"))

    def adt(self, n):
        c = [a for a in self.F.adts if a.startswith(REFS) and a.endswith("::" + n)]
        if len(c) != 1: raise CheckError("anchor missing: type %s of the editor" % n)
        return c[0]

    def answers(self, name):
        t = canon(self.F.fns[name].locals[0][0]["s"])
        for k, a in (("ref", self.REF), ("decl", self.DECL)):
            if t.startswith("core::option::Option<" + a): return k
        return None

    def bench(self): return bench(self, RefCk(self))


def entry(S, name):
    """the public method of the editor's file"""
    ents, selfs = entries_of(S)
    c = [fn for p, fn in ents.items() if p.split("::")[-1] == name and "lang_fall" in p and fn.impl_trait is None]
    if len(c) != 1: raise CheckError("anchor missing: query %s" % name)
    return c[0]


def exhausted(e, ck, st):
    """every element of the list has been looked at and passed over"""
    ck.resolve(e, st)
    k, r, of, c = ck.g(st, "k"), ck.g(st, "r"), ck.listof(st), ck.g(st, "cur")
    return of is not None and c is not None and c[2] == 0 and eqn(e, st, k, num(e.seqlen(of))) and eqn(e, st, r, k)


def scans(S):
    fs = [entry(S, n) for n in ("resolve_reference", "find_usages")]
    b, args, sel = setup(S, fs[0])
    e, ck = b.eng, b.ck
    ck.x = sel[0]
    ends = []
    for fn, mode, w in zip(fs, ("def", "use"), ("go to definition", "find usages")):
        ck.mode = mode
        outs = [(s, v) for s, v in e.run(fn, args, b.st.copy()) if feasible(s)]
        S.ctx.count("paths", len(outs))
        ends.append([s for s, _ in outs if ck.g(s, "leaf") is not None])
        S.ok(w, "scans what is around the caret", bool(ends[-1]), "scan", "does not look at what is around the caret")
        for st, v in outs:
            ck.resolve(e, st)
            if ck.g(st, "leaf") is None:
                S.ok(w, "looks at the token at the caret", e.decide(st, e.app("nonempty", ck.root(e))) is False, "leaf", "gives up although there is a token at the caret")
                S.ok(w, "finds nothing in an empty file", nothing(e, ck, st, v), "empty", "answers with something although the file is empty")
            elif mode == "def": defined(S, w, e, ck, st, v)
            else: used(S, w, e, ck, st, v)
        for k, msg in ck.bad: S.ok(w, k, False, k, "%s: %s" % (w, msg))
        ck.bad = []
    for k, ns in sorted(ck.names.items()): S.ok("providers", "both queries ask the same provider", len(ns) == 1, "provider:" + k, "references and usages are told by different providers: %s" % ", ".join(sorted(ns)))
    for s1 in ends[0]:
        for s2 in ends[1]:
            d1, d2 = ({x[1][0]: x[1][1] for x in s.mem[("G", "sig")][1]} for s in (s1, s2))
            if any(d2.get(i, t) != t for i, t in d1.items()): continue
            S.ok("caret", "both queries look at the same token", ck.g(s1, "leaf") == ck.g(s2, "leaf"), "token", "the two queries look at different tokens when the caret is between two of them")
    for (k, p), good in sorted(ck.need.items()): S.ok("queries", "%s (%s)" % (k, p), good, "need:%s:%s" % (k, p.split("::")[-1] if "{" not in p else p), "%s: not so in %s" % (k, p))
    S.ctx.account(e)
    return ck.names


def nothing(e, ck, st, v):
    v = ck.strof(e, st, v)
    return opt(st, v)[0] is False or v[0] in ("seq", "arr") and e.holds(st, L.neg(e.seqlen(v)))


def defined(S, w, e, ck, st, v):
    is_some, r = opt(st, v)
    S.ok(w, "answers with a definition or nothing", is_some is not None, "undecided", "answers with neither")
    c = ck.g(st, "cur")
    el = c[3][0] if c[2] == 1 else None
    has = ck.reference(e, st, el)[0] if el else None
    there, d = ck.resolved(e, st, el) if el else (None, None)
    if is_some:
        good = bool(there)
        S.ok(w, "leads somewhere only from a reference around the caret", good, "nowhere", "answers with the definition of something other than the reference around the caret")
        if good: S.ok(w, "leads to the name of the definition", r == ck.nav(e, st, d), "where", "leads to something other than what stands for the definition")
    elif is_some is False:
        S.ok(w, "gives up only without a reference that can be resolved", exhausted(e, ck, st) or bool(has) and there is False, "gives-up", "gives up although there may be a reference around the caret that can be resolved")


def used(S, w, e, ck, st, v):
    v = ck.strof(e, st, v)
    S.ok(w, "looks at everything there is", exhausted(e, ck, st), "skip", "gives up before everything was looked at")
    n = ck.g(st, "n") or const(0)
    S.ok(w, "answers with the usages", v[0] in ("seq", "arr") and eqn(e, st, num(e.seqlen(v)), n), "list", "leaves out or adds to the usages")
    if ck.phase(st) == 1: S.ok(w, "no usages without a declaration", nothing(e, ck, st, v), "none", "lists usages without a declaration")


# ------------------------------------------------------------------ the providers
class ProvCk(PosCk):
    """the analysis answers with a function of what it is asked"""
    def __init__(self, S):
        PosCk.__init__(self, S)
        self.modular = False
        self.types = {}          # targets of references -> type
        self.asked = []          # (method, element asked about, answer)

    def intercept(self, eng, st, name, args, call):
        if name.startswith(AN + "::") and call["method"] in self.S.resolvers:
            a = self.strof(eng, st, val(eng, st, args[1]))
            v = eng.app(call["method"], a)
            if (call["method"], a, v) not in self.asked: self.asked.append((call["method"], a, v))
            return [(st, v)]
        return PosCk.intercept(self, eng, st, name, args, call)

    def target(self, eng, n):
        x = eng.struct(n) if n[0] == "s" else None
        return x[2] if x and x[0] == "app" and x[1] == "node" and x[2] in self.types else None

    def element(self, eng, t, n):
        x = self.target(eng, n)
        return x if x is not None and self.types[x].split("::")[-1] == t else PosCk.element(self, eng, t, n)

    def isa(self, eng, st, t, n):
        x = self.target(eng, n)
        if x is not None:
            u = self.types[x].split("::")[-1]
            if t == u: return [(st, True)]
            if self.S.bykind(t) and self.S.bykind(u) and not self.S.bykind(t) & self.S.bykind(u): return [(st, False)]
        return PosCk.isa(self, eng, st, t, n)


def enums(S, ty, seen=()):
    """enums an answer consists of, the outermost first"""
    d = tyname(ty)
    a = S.F.adts.get(d)
    if a is None or a["kind"] != "enum" or not d.startswith("lang_fall::") or d in seen: return []
    out = [d]
    for v in a["variants"]:
        for f in v["fields"]: out += enums(S, f["ty"], seen + (d,))
    return out


def targets(S, adt, variant, D):
    """does an answer of this variant lead somewhere? type of the target, the enum inside, or None"""
    for i, f in enumerate(S.F.adt(adt)["variants"][variant]["fields"]):
        t = tyname(f["ty"])
        if f["ty"]["k"] == "adt" and t in D: return "type", t, i
        if f["ty"]["k"] == "adt" and enums(S, f["ty"]) and any(targets(S, t, j, D) for j in range(len(S.F.adt(t)["variants"]))): return "enum", t, i
    return None


def open_answer(S, e, st, v, adt, D):
    """may an answer, on this path, be one that leads somewhere?"""
    n = len(S.F.adt(adt)["variants"])
    k = v[2] if v[0] == "adt" else st.vars.get(v[1]) if v[0] == "s" else None
    ks = [k] if isinstance(k, int) else [i for i in range(n) if not isinstance(k, frozenset) or i not in k]
    for i in ks:
        t = targets(S, adt, i, D)
        if not t: continue
        name = S.F.adt(adt)["variants"][i]["name"]
        if t[0] == "type": return "%s::%s" % (adt.split("::")[-1], name)
        f = S.F.adt(adt)["variants"][i]["fields"][t[2]]
        x = e.fld(v, t[2], f["name"], name, adt)
        r = open_answer(S, e, st, x, t[1], D)
        if r: return r
    return None


def leads(S, e, ck, st, D):
    """an answer of the analysis that leads somewhere although nothing is made of it"""
    for m, a, v in ck.asked:
        if opt(st, v)[0] is True:
            r = open_answer(S, e, st, e.fld(v, 0, "0", "Some", OPTION), S.resolvers[m], D)
            if r: return r
    return None


def providers(S, names):
    F = S.F
    fd, fr = (F.fn(next(iter(names[k]))) for k in ("decl", "ref"))
    # what can be declared
    b, args, _ = setup(S, fd)
    S.resolvers = {}
    e, ck = b.eng, b.ck
    ck.modular = False
    n = next(a for a, (t, _) in zip(args, fd.locals[1:]) if tyname(t) == NODE)
    D = set()
    short = {t.split("::")[-1]: t for t in S.W if t.startswith("lang_fall_syntax::")}
    for st, v in e.run(fd, args, b.st):
        if not feasible(st) or not opt(st, v)[0]: continue
        ts = {x for x in short if e.decide(st, e.app("is:" + x, n)) is True}
        D |= {short[x] for x in ts}
        d = ck.strof(e, st, opt(st, v)[1])
        S.ok("declarations", "declarations are where they are declared", d[0] == "adt" and d[3][fidx(F, S.DECL, "node")] == n, "decl-node", "a declaration is found at a node other than the one that declares it")
    S.ok("declarations", "there are declarations", bool(D), "decls", "nothing is declared")
    S.ctx.account(e)
    # what can be asked
    A = [i for p, i in F.fns.items() if p.startswith(AN + "::resolve_") and i.vis == "Public" and i.argc == 2]
    for fn in A:
        t = fn.locals[0][0]
        inner = [a for a in F.adts if F.adts[a]["kind"] == "enum" and a.startswith("lang_fall::") and re.match(r"core::option::Option<%s(<.*>)?>$" % re.escape(a), canon(t["s"]))]
        if len(inner) == 1 and any(targets(S, inner[0], i, D) for i in range(len(F.adt(inner[0])["variants"]))): S.resolvers[fn.path.split("::")[-1]] = inner[0]
    if not S.resolvers: raise CheckError("anchor missing: resolution of references")
    want = {m: tyname(F.fns[AN + "::" + m].locals[2][0]) for m in S.resolvers}
    ck = ProvCk(S)
    b, args, _ = setup(S, fr, ck=ck)
    e = b.eng
    n = next(a for a, (t, _) in zip(args, fr.locals[1:]) if tyname(t) == NODE)
    outs = [(s, v) for s, v in e.run(fr, args, b.st) if feasible(s)]
    made = [(s, ck.strof(e, s, opt(s, v)[1])) for s, v in outs if opt(s, v)[0]]
    on = {x for s, _ in made for x in short if e.decide(s, e.app("is:" + x, n)) is True}
    W_ = "references"
    for st, v in outs:
        is_some, _ = opt(st, v)
        S.ok(W_, "a node is a reference or not", is_some is not None, "undecided", "answers with neither")
        if is_some is not False: continue
        lost = [x for x in on if e.decide(st, e.app("is:" + x, n)) is True]
        S.ok(W_, "all nodes of a kind are references", not lost, "some:" + ",".join(lost), lambda: "some nodes of type %s are not taken for references" % ", ".join(lost))
        r = leads(S, e, ck, st, D)
        S.ok(W_, "what can be resolved is a reference", r is None, "lost:%s" % r, "a node that resolves to %s is not taken for a reference" % r)
    met = {}
    for st, ref in made:
        fs = {f["name"]: x for f, x in zip(F.adt(S.REF)["variants"][0]["fields"], ref[3])} if ref[0] == "adt" and ref[1] == S.REF else {}
        fv = [x for x in fs.values() if x[0] in ("clo", "fn")]
        ns = [x for x in fs.values() if x[0] not in ("clo", "fn")]
        S.ok(W_, "references say where they are and how they are resolved", len(fv) == 1 and len(ns) == 1, "shape", "a reference does not say where it is or how it is resolved")
        if len(fv) != 1 or len(ns) != 1: continue
        call = {"name": "<call>", "method": "", "trait": None, "rkind": "", "targs": [], "aty": [], "dty": fr.locals[0][0], "fn": fr, "span": None, "diverges": False, "resolved": False}
        an = next((a for a, (t, _) in zip(args, fr.locals[1:]) if tyname(t) == AN), None)
        before = len(ck.asked)
        res = [(s, x) for s, x in e.call_value(st.copy(), fv[0], [an if an is not None else e.fresh("analysis"), ns[0]], call) if feasible(s)]
        S.ctx.count("kinds of references")
        for s, x in res:
            there, d = opt(s, x)
            S.ok(W_, "a reference leads somewhere or not", there is not None, "lead-undecided", "answers with neither")
            if there is False:
                r = leads(S, e, ck, s, D)
                S.ok(W_, "what the analysis resolves can be gone to", r is None, "dropped:%s" % r, "nothing is made of a reference that resolves to %s" % r)
            if there: declared(S, e, ck, s, ck.strof(e, s, d), fd, D, met, call)
        S.ok(W_, "references can be resolved", any(opt(s, x)[0] for s, x in res), "resolve", "a reference can never be resolved")
    for m, a, v in ck.asked:
        good = any(a == e.app("as:" + want[m].split("::")[-1], x) for x in (n, e.app("parent", n)))
        S.ok(W_, "the analysis is asked about the reference itself", good, "self:" + m, "%s is asked about something other than the reference at hand" % m)
    for m in S.resolvers:
        S.ok(W_, "whatever can be resolved is a reference (%s)" % m, any(x[0] == m for x in ck.asked), "kind:" + m, "what %s resolves is not taken for a reference" % m)
        for adt in enums(S, {"k": "adt", "def": S.resolvers[m], "s": S.resolvers[m]}):
            for i, v in enumerate(F.adt(adt)["variants"]):
                t = targets(S, adt, i, D)
                if t and t[0] == "type": S.ok(W_, "references to %s can be followed" % v["name"], (adt, i) in met, "variant:%s:%s" % (adt.split("::")[-1], v["name"]), "references that resolve to %s::%s are not followed" % (adt.split("::")[-1], v["name"]))
    ps = [p for p in ck.panics if feasible(p[0])]
    S.ok(W_, "following references does not fail", not ps, "panic", lambda: "following a reference may panic: %s in %s" % (ps[0][2], ps[0][1]))
    S.ctx.account(e)
    # where references and declarations can stand
    for d in sorted(D):
        for t in sorted(on): S.ok(W_, "no %s stands inside a %s" % (d.split("::")[-1], t), not inside(S, d, short[t]), "inside:%s:%s" % (d, t), "a %s may stand inside a %s, where the queries look for different things" % (d.split("::")[-1], t))
    for st, ref in made:
        if any(e.decide(st, e.app("is:" + x, n)) is True for x in on): continue
        ps = [x for x in short if e.decide(st, e.app("is:" + x, e.app("parent", n))) is True]
        S.ok(W_, "tokens of declarations are no references", any(all(not S.bykind(x) & S.bykind(d.split("::")[-1]) for d in D) for x in ps), "token", "the name of a declaration may be taken for a reference")


def inside(S, d, t):
    """may an element of type d stand below one of type t? (by the grammar)"""
    r, q = S.placed(d), S.placed(t)
    if r is None or q is None or r[0] is not q[0]: return True
    up, todo = set(), set(r[2])
    while todo:
        k = todo.pop()
        if k in up: continue
        up.add(k)
        todo |= S.above(r[0], k)
    return bool(up & q[1])


def declared(S, e, ck, st, d, fd, D, met, call):
    """what a reference leads to is the declaration that is found there"""
    W_ = "references"
    ok_ = d[0] == "adt" and d[1] == S.DECL
    S.ok(W_, "references lead to declarations", ok_, "leads", "a reference leads to something other than a declaration")
    if not ok_: return
    n = d[3][fidx(S.F, S.DECL, "node")]
    x = e.struct(n) if n[0] == "s" else None
    t = x[2] if x and x[0] == "app" and x[1] == "node" else None
    y = e.struct(t) if t is not None and t[0] == "s" else None
    found = None
    if y and y[0] == "f":
        for m in S.resolvers:
            for adt in enums(S, {"k": "adt", "def": S.resolvers[m], "s": S.resolvers[m]}):
                for i, v in enumerate(S.F.adt(adt)["variants"]):
                    tg = targets(S, adt, i, D)
                    if v["name"] == y[1] and tg and tg[0] == "type" and v["fields"][tg[2]]["name"] == y[2] and mine(S, e, ck, st, y[3], m, adt, i, D): found = (adt, i, tg[1])
    S.ok(W_, "references lead to what they resolve to", found is not None, "target", "a reference leads to something other than what it resolves to")
    if found is None: return
    met[found[:2]] = True
    ck.types[t] = found[2]
    args = [n if tyname(ty) == NODE else e.fresh("a") for ty, _ in fd.locals[1:fd.argc + 1]]
    res = [(s, v) for s, v in e.call_fn(st.copy(), fd, args, call) if feasible(s)]
    who = "%s::%s" % (found[0].split("::")[-1], S.F.adt(found[0])["variants"][found[1]]["name"])
    for s, v in res:
        is_some, d2 = opt(s, v)
        d2 = ck.strof(e, s, d2) if is_some else None
        S.ok(W_, "what references lead to (%s) is a declaration" % who, bool(is_some), "nodecl:" + who, "what references lead to (%s) is not found to be declared there" % who)
        if is_some: S.ok(W_, "the declaration is the one references lead to (%s)" % who, e.snap(s, d2) == e.snap(s, d), "decl:" + who, "the declaration found where references lead to (%s) differs from theirs" % who)


def mine(S, e, ck, st, payload, m, adt, i, D):
    """the value is the (inner) answer of that query on this path"""
    p = ("s", payload[1]) if payload[0] == "T" else None
    for q, a, v in ck.asked:
        if q != m: continue
        x = e.fld(v, 0, "0", "Some", OPTION)
        outer = S.resolvers[m]
        for _ in range(3):
            if x == p: return outer == adt and (st.vars.get(x[1]) == i)
            k = st.vars.get(x[1]) if x[0] == "s" else None
            if not isinstance(k, int): break
            t = targets(S, outer, k, D)
            if not t or t[0] != "enum": break
            f = S.F.adt(outer)["variants"][k]["fields"][t[2]]
            x, outer = e.fld(x, t[2], f["name"], S.F.adt(outer)["variants"][k]["name"], outer), t[1]
    return False


def analyse(F, M, rep, ctx):
    S = Refs(F, M, rep, ctx)
    names = scans(S)
    if set(names) != {"ref", "decl"}: raise CheckError("anchor missing: providers of references and declarations")
    providers(S, names)
