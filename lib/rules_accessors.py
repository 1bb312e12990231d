"""C13: parts that typed accessors promise: what a node of each kind is guaranteed to contain, by an effect analysis of the
grammar tables, against what each accessor found in MIR cannot do without."""
from rules_search import *
from rules_tables import Grammar, Lang, languages, slots
from facts import CheckError, canon
from builtins_rs import it_next

KEEP = -1
AST = "fall_tree::ast::AstNode"


class Parts(Grammar):
    """outcomes of a rule for a set K of kinds: pairs (replacement left behind, a child of a kind in K was added)"""
    def can_fail(self):
        X = self.X = {s: False for s in self.S}
        ch = True
        while ch:
            ch = False
            for s, c in self.S.items():
                if not X[s] and self.fail1(s, c): X[s] = True; ch = True

    def fail1(self, s, c):
        X = self.X
        k, v = self.op(s[0])
        if k in ("Rep", "Opt"): return False
        if k in ("Token", "ContextualToken", "Any", "Not", "Eof", "IsIn", "PrevIs", "WithSkip"): return True
        if k == "Or": return all(X[x] for x in c)
        if k == "And": return any(X[x] for x in (c if v[1] is None else c[:v[1]]))
        if k == "Layer": return X[c[0]]
        if k == "Inject": return X[c[0]] or X[c[1]]
        if k == "Pratt":
            at, pre, inf = self.pratt(s, c)
            return all(X[x] for x in at)
        return not c or X[c[0]]

    def reptypes(self):
        return {self.op(s[0])[1]["ty"] for s in self.S if self.op(s[0])[0] == "PubReplace"}

    def firsts(self):
        """kinds (table numbers) of the node a match begins with; None: something else"""
        R = self.reptypes()
        N = self.K1 = {s: frozenset() for s in self.S}
        ch = True
        while ch:
            ch = False
            for s, c in self.S.items():
                n = N[s] | self.firsts1(s, c, R)
                if n != N[s]: N[s] = n; ch = True

    def firsts1(self, s, c, R):
        N = self.K1
        k, v = self.op(s[0])
        if k == "Pub": return {v["ty"]} | (R if v["replaceable"] else set())
        if k == "Or": return set().union(*[N[x] for x in c])
        if k == "Pratt":
            at, pre, inf = self.pratt(s, c)
            return set().union(*[N[x] for x in at]) | {p["ty"] for p in v["prefixes"] + v["infixes"]}
        if k in ("Enter", "Exit", "Call", "Var", "PubReplace"): return N[c[0]] if c else set()
        if k == "Inject": return N[c[1]]
        if k == "And" and c: return N[c[0]]
        return {None}

    def outcomes(self, K):
        """K: table numbers of the kinds wanted"""
        self.K = K
        self.O = {s: frozenset() for s in self.S}
        ch = True
        while ch:
            ch = False
            for s, c in self.S.items():
                n = self.O[s] | self.out1(s, c)
                if n != self.O[s]: self.O[s] = n; ch = True

    @staticmethod
    def then(a, b): return {(r2 if r2 != KEEP else r1, k1 or k2) for r1, k1 in a for r2, k2 in b}

    def out1(self, s, c):
        O, K, then = self.O, self.K, self.then
        k, v = self.op(s[0])
        E = {(KEEP, False)}
        if k == "Pub":
            if v["replaceable"]: return {(None, t in K) for t in ({v["ty"]} | {r for r, _ in O[c[0]] if r not in (KEEP, None)})} if O[c[0]] else set()
            return {(r, v["ty"] in K) for r, _ in O[c[0]]}
        if k == "PubReplace": return {(v["ty"], x) for _, x in O[c[0]]}
        if k == "Token": return {(KEEP, v in K)}
        if k == "ContextualToken": return {(KEEP, v[0] in K)}
        if k == "Any": return {(KEEP, False), (KEEP, True)}
        if k in ("Not", "Eof", "IsIn", "PrevIs"): return E
        if k == "Or": return set().union(*[O[x] for x in c]) if c else set()
        if k == "Opt": return O[c[0]] | E
        if k == "Rep":
            out = set(E)
            while True:
                n = out | then(out, O[c[0]])
                if n == out: return out
                out = n
        if k == "And":
            m = len(c) if v[1] is None else v[1]
            out, cur = set(), set(E)
            for j, x in enumerate(c):
                if j >= m and self.X[x]: out |= cur
                cur = then(cur, O[x])
            return out | cur
        if k == "WithSkip": return O[c[1]]
        if k == "Layer": return O[c[1]] | (E if self.X[c[1]] else set())
        if k == "Inject": return then({(r, False) for r, _ in O[c[0]]}, O[c[1]])
        if k == "Pratt":
            at, pre, inf = self.pratt(s, c)
            reps = {r for x in c for r, _ in O[x]} | {KEEP}
            if not any(O[x] for x in at): return set()
            return {(r, t in K) for r in reps for t in self.K1[s]}
        return O[c[0]] if c else set()

    def nodes(self, T):
        """for every way a node of kind T comes about: (state, does it have a child of a kind in K on every outcome)"""
        for s, c in self.S.items():
            k, v = self.op(s[0])
            if k == "Pub":
                b = self.O[c[0]]
                if s[0] == 0 and v["ty"] == T: yield s, not self.X[c[0]] and all(x for _, x in b)
                elif not v["replaceable"]:
                    if v["ty"] == T: yield s, all(x for _, x in b)
                else:
                    mine = [x for r, x in b if (r if r not in (KEEP, None) else v["ty"]) == T]
                    if mine: yield s, all(mine)
            if k == "Pratt":
                at, pre, inf = self.pratt(s, c)
                arg = {(KEEP, t in self.K) for t in self.K1[s]}
                for p, x in zip(v["prefixes"], pre):
                    if p["ty"] == T: yield s, all(h for _, h in self.then(self.O[x], arg))
                for p, x in zip(v["infixes"], inf):
                    if p["ty"] == T:
                        after = {(KEEP, False)} | (arg if p["has_rhs"] else set())
                        yield s, all(h for _, h in self.then(self.then(arg, self.O[x]), after))

    def outside(self, T):
        """kinds (table numbers) of nodes that may occur without an enclosing node of kind T"""
        seen, out = set(), set()
        todo = [self.state(0, {})]
        while todo:
            s = todo.pop()
            if s in seen: continue
            seen.add(s)
            k, v = self.op(s[0])
            if k == "Pub":
                out.add(v["ty"])
                if v["ty"] == T and not v["replaceable"]: continue
            if k == "PubReplace": out.add(v["ty"])
            if k == "Pratt":
                out |= {p["ty"] for p in v["prefixes"] + v["infixes"]}
            if k == "Token": out.add(v)
            if k == "ContextualToken": out.add(v[0])
            todo += self.S[s]
        return out


class Syntax:
    """the language of a generated module: its grammar, ready for questions"""
    def __init__(self, F, M, ctx, fn):
        self.lang = Lang(F, M, ctx, fn)
        self.crate = fn.path.split("::")[0]
        self.g = Parts(self.lang.rules, len(self.lang.kinds), slots(F, "contexts"), slots(F, "args"))
        self.good = self.g.wellformed()
        if self.good:
            self.g.free_slots(); self.g.explore(); self.g.nullable(); self.g.can_fail(); self.g.firsts()
        self.idx = {k: i for i, k in enumerate(self.lang.kinds)}
        self.memo = {}

    def guaranteed(self, T, K):
        """(always, number of ways): does every node of kind T have a child of a kind in K?"""
        key = frozenset(K)
        t = self.idx.get(T)
        if key not in self.memo:
            self.g.outcomes({self.idx[k] for k in K if k in self.idx})
            self.memo[key] = dict(self.g.O)
        else:
            self.g.K = {self.idx[k] for k in K if k in self.idx}
            self.g.O = self.memo[key]
        ways = [x for _, x in self.g.nodes(t)]
        return all(ways), len(ways)


def syntaxes(F, M, ctx):
    r = getattr(ctx, "_syntaxes", None)
    if r is None: r = ctx._syntaxes = {s.crate: s for s in (Syntax(F, M, ctx, fn) for fn in languages(F))}
    return r


class AcCk(NodeCk):
    """children of the node at hand are the ones given"""
    def __init__(self, kids=None):
        NodeCk.__init__(self)
        self.kids = kids

    others = frozenset()
    W = {}

    def intercept(self, eng, st, name, args, call):
        if self.kids is not None and name == NODE + "::ty":
            n = val(eng, st, args[0])
            for k, x in self.kids:
                if n == x: return [(st, const(k))]
        if name == "fall_tree::ast::AstChildren::new":
            # (that it yields exactly the children its type accepts is decided under C17)
            ty = strip_ty(canon(call["targs"][-1]["s"])) if call["targs"] else None
            xs = val(eng, st, args[0])
            if ty in self.W and xs[0] == "adt" and xs[3][0] == ("rv", self.seq(eng, self.node)):
                return [(st, madt("VecIter", ("rv", ("seq", tuple(("it", eng.app("as:" + ty, x)) for k, x in self.kids if k in self.accept_(ty)))), const(0)))]
            return [(st, madt("VecIter", ("rv", eng.app("list:" + str(ty), xs)), const(0)))]
        if name.startswith("<fall_tree::ast::AstChildren<") and call["method"] == "next":
            return it_next(eng, st, args[0], call)
        if name in self.others:
            a = [val(eng, st, x) for x in args]
            t = eng.app(name, *a)
            if "AstChildren" in call["dty"]["s"] or "Iterator" in call["dty"]["s"]: t = madt("VecIter", ("rv", t), const(0))
            return [(st, t)]
        return NodeCk.intercept(self, eng, st, name, args, call)

    def on_panic(self, eng, st, name, fn, span):
        """what the text of a token looks like is the lexer's business"""
        if fn.path.lstrip("<").startswith("fall_text::"): return
        ts = [t["s"] for t, _ in fn.locals[1:fn.argc + 1]]
        if any("fall_text::text::Text" in t or t.endswith("str") for t in ts) and not any("Node" in t or "fall_tree" in t for t in ts): return
        NodeCk.on_panic(self, eng, st, name, fn, span)

    def seq(self, eng, n):
        if self.kids is not None and n == self.node: return ("seq", tuple(("it", x) for _, x in self.kids))
        return NodeCk.seq(self, eng, n)


def wraps(F, M, ctx, kinds):
    """kinds each typed node accepts: type -> set"""
    out = {}
    for i in F.impls:
        if not i["trait"] or canon(i["trait"]).split("<")[0] != AST: continue
        ty = strip_ty(canon(i["self"]))
        fns = [f for p, f in F.fns.items() if f.name == "wrap" and f.impl_trait and canon(f.impl_trait).split("<")[0] == AST and strip_ty(canon(p.split(" as ")[0].lstrip("<"))) == ty]
        if len(fns) != 1: continue
        out[ty] = fns[0]
    return out


def kinds_of(F, M, ctx, fn, kinds):
    got = set()
    for k in kinds:
        ck = AcCk(())
        b = Bench(F, M, ck)
        n = b.eng.fresh("node")
        ck.kids = ((k, n),)
        outs = [(s, v) for s, v in b.eng.run(fn, [n], b.st) if feasible(s)]
        ctx.account(b.eng)
        if any(opt(s, v)[0] is not False for s, v in outs): got.add(k)
    return got


def accessors(F, M, rep, ctx):
    """C13"""
    syn = syntaxes(F, M, ctx)
    W = wraps(F, M, ctx, None)
    kinds = {}
    todo = []
    for path, fn in sorted(F.fns.items()):
        crate = canon(path).lstrip("<").split("::")[0]
        if crate not in syn or fn.kind != "fn" or fn.argc < 1 or "{" in path: continue
        t = fn.locals[1][0]
        while t["k"] in ("ref",): t = t["to"]
        if fn.impl_trait: continue
        own = []
        if t["k"] == "adt" and strip_ty(canon(t["s"])) in W: own = [strip_ty(canon(t["s"]))]
        elif t["k"] == "param" or t["s"] == "Self":
            tr = canon(path).rsplit("::", 1)[0]
            own = [strip_ty(canon(i["self"])) for i in F.impls if i["trait"] and canon(i["trait"]).split("<")[0] == tr and strip_ty(canon(i["self"])) in W]
        if own: todo.append((crate, fn, own))
    names = {canon(f.path) for _, f, _ in todo}
    for crate, fn, own in todo:
        ctx.count("accessors")
        accessor(F, M, rep, ctx, syn[crate], W, kinds, fn, own, names - {canon(fn.path)})
    return len(todo)


def short(p): return "::".join(strip_ty(x) for x in p.split("::")[-2:])


def accessor(F, M, rep, ctx, syn, W, kinds, fn, own, others):
    def kindsof(ty):
        if ty not in kinds: kinds[ty] = kinds_of(F, M, ctx, W[ty], syn.lang.kinds)
        return kinds[ty]
    K = set()
    for k in [None] + list(syn.lang.kinds):
        p = panics(F, M, ctx, W, fn, own[0], () if k is None else (k,), others, kindsof)
        if k is None:
            if not p: return
        elif not p: K.add(k)
    name = short(fn.path)
    ctx.count("mandatory accessors")
    for ty in own:
        for T in sorted(kindsof(ty)):
            all_, n = syn.guaranteed(T, K)
            what = " or ".join(sorted(syn.lang.names.get(k, str(k)) for k in K)) or "nothing"
            tn = syn.lang.names.get(T, T)
            rep.ok("C13", "%s: every %s has a %s (%d rules make one)" % (fn.path, tn, what, n), all_, "part:%s:%s" % (name, tn),
                   lambda: "%s promises a %s, but a %s may be without one" % (fn.path, what, tn))


def panics(F, M, ctx, W, fn, ty, kids, others, kindsof):
    ck = AcCk(())
    ck.others, ck.W = others, W
    ck.accept_ = kindsof
    b = Bench(F, M, ck)
    e = b.eng; e.unroll = True
    node = e.fresh("node")
    ck.node = node
    ck.kids = tuple((k, e.fresh("child%d" % k)) for k in kids)
    a = ("adt", ty, 0, (node,))
    args = [b.cell(a) if fn.locals[1][0]["k"] == "ref" else a] + [e.fresh("arg") for _ in range(fn.argc - 1)]
    e.run(fn, args, b.st)
    ctx.account(e)
    return any(feasible(p[0]) for p in ck.panics)


def analyse(F, M, rep, ctx):
    accessors(F, M, rep, ctx)
