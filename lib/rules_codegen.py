"""C20: every construct of the grammar language resolves to the built-in of its name with its operands in order, and
is compiled to the parser operation of that name. Each resolution and compilation function is interpreted over an
opaque syntax tree; every outcome is compared with the meaning of the construct."""
from ast_layer import *
from rules_text import Bench, fidx, vidx
from rules_search import Suite, opt
from absint import *

Q = "lang_fall::analysis::query::"
CK = Q + "CallKind"
REFKIND = Q + "RefKind"
PV = Q + "PratVariant"
EX = "lang_fall_syntax::fall::Expr"
CG = "fall_gen::generate::codegen::Codegen"
DST = "fall_parse::Expr"
RESULT = "core::result::Result"

# name of the built-in -> (construct, number of arguments, operands: argument numbers, takes a context)
BUILTINS = {
    "any": ("Any", 0, (), False), "commit": ("Commit", 0, (), False), "eof": ("Eof", 0, (), False),
    "not": ("Not", 1, (0,), False), "is_in": ("IsIn", 1, (), True),
    "layer": ("Layer", 2, (0, 1), False), "with_skip": ("WithSkip", 2, (0, 1), False), "inject": ("Inject", 2, (0, 1), False),
    "enter": ("Enter", 2, (1,), True), "exit": ("Exit", 2, (1,), True),
}


# what an analysis answers is a function of what it is asked
API = ("ast", "file", "resolve_reference", "resolve_call", "resolve_pratt_variant", "resolve_method", "ast_node_traits")


class CgCk(AstCk):
    def __init__(self, F):
        AstCk.__init__(self)
        self.F = F
        self.rec = set()
        self.image = self.wanted = None
        self.scan = set()
        self.pos = {}
        self.order = []
        self.cgcell = None

    # ---- recursion of the compiler
    def intercept(self, eng, st, name, args, call):
        if name.startswith("lang_fall::analysis::Analysis::") and name.split("::")[-1] in API:
            return [(st, eng.app(call["method"], *[self.strof(eng, st, val(eng, st, x)) for x in args[1:]]))]
        if name in self.rec:
            e = eng.snap(st, self.strof(eng, st, val(eng, st, args[1])))
            s1, s2 = st.copy(), st.copy()
            for s in (s1, s2): self.regrow(eng, s, args[0])
            t = eng.app(call["method"], e)
            return [(s1, ("adt", RESULT, 0, (t,))), (s2, ("adt", RESULT, 1, (eng.app("err", t),)))]
        if call["method"] in ("iter", "into_iter") and args:
            x = self.strof(eng, st, args[0])
            for y in (x, eng.load(st, x) if x[0] == "s" else x):
                if y in self.scan: self.start(eng, st, y); break
        if call["method"] in ("to_string", "to_cow") and args and name not in self.calls:
            x = self.strof(eng, st, args[0])
            if x[0] == "s": return [(st, eng.app(call["method"], x))]
        if "{closure" not in name and call["method"] == "position" and call["trait"] == "core::iter::traits::iterator::Iterator":
            outs = self.position(eng, st, args, call)
            if outs is not None: return outs
        if "::" in name:
            p, v = name.rsplit("::", 1)
            a = self.F.adts.get(p)
            if a and a["kind"] == "enum" and len(args) and any(x["name"] == v for x in a["variants"]):
                return [(st, ("adt", p, vidx(self.F, p, v), tuple(args)))]
        outs = AstCk.intercept(self, eng, st, name, args, call)
        if outs and name.startswith(SINK):
            for s2, _ in outs: self.resolve(eng, s2)
        return outs

    def regrow(self, eng, st, r):
        """compiling a part of the grammar adds expressions"""
        r = eng.deref(r)
        v = eng.load(st, r)
        for _ in range(4):
            if v[0] in ("ref", "rv"): r, v = v, eng.load(st, v)
        if v[0] != "adt" or v[1] != CG: raise CheckError("cannot follow the list of expressions of the compiler")
        i = fidx(self.F, CG, "expressions")
        old = v[3][i]
        new = eng.fresh("expressions")
        eng.addfact(st, L.add(eng.seqlen(new), eng.seqlen(old), -1))
        fs = list(v[3]); fs[i] = new
        eng.store(st, r, ("adt", CG, 0, tuple(fs)))
        g = self.g(st, "mine")
        if g is not None: self.s(st, "mine", MON(g[2], *g[3]))

    # ---- position over a list: the closure decides about an arbitrary element of it
    def position(self, eng, st, args, call):
        it = args[0]
        for _ in range(4):
            if it[0] in ("ref", "rv"): it = eng.load(st, it)
        if it[0] != "adt" or it[1] not in ("models::VecIter", "models::SliceIter"): return None
        s = it[3][0]
        byref = it[1] == "models::SliceIter"
        for _ in range(4):
            if s[0] in ("ref", "rv"): s = eng.load(st, s)
        if aff(it[3][1]) != ((), 0) or s[0] != "s": return None
        idx = eng.fresh("pos")
        n = eng.seqlen(s)
        s1 = st.copy()
        eng.addfact(s1, aff(idx))
        eng.addfact(s1, L.shift(L.add(n, aff(idx), -1), -1))
        x = eng.index(s1, s, idx)
        outs, no = [], []
        item = ("rv", x) if byref else x
        before = set(s1.mem)
        for s2, b in eng.call_closure(s1, args[1], [item], call):
            for c in [c for c in s2.mem if c not in before and c[0] in ("L", "B")]: del s2.mem[c]
            for s3, t in eng.fork(s2, b):
                if t: outs.append((s3, some(idx)))
                else: no.append(s3)
        self.pos[idx] = (s, x, [o[0] for o in outs], no)
        outs.append((st, NONE))
        return outs

    # ---- lists: what is pushed is the image of the element at hand
    def items(self, eng, st, seq):
        if seq in self.scan: self.start(eng, st, seq)
        return AstCk.items(self, eng, st, seq)

    def ofs(self, st):
        """the list that is being gone through"""
        g = self.g(st, "of")
        return None if g is None else self.order[g[2]]

    def listspecs(self, specs):
        """{list: (which elements it is made of, what they become)}"""
        self.scan = set(specs)
        self.pred = lambda eng, st, el: specs[self.ofs(st)][0](eng, st, el)
        self.image = lambda eng, st, item, el: specs[self.ofs(st)][1](eng, st, item, el)
        self.wanted = lambda eng, st, item: self.ofs(st) is not None and specs[self.ofs(st)][2](item)

    def start(self, eng, st, seq):
        c, of = self.g(st, "cur"), self.ofs(st)
        if of is not None and of != seq and c is not None and c[0] == "adt" and c[2] == 1 and not eqn(eng, st, self.g(st, "k"), num(eng.seqlen(of))): return   # inside of another list
        self.begin(eng, st, seq)
        if seq not in self.order: self.order.append(seq)
        self.s(st, "of", MON(self.order.index(seq)))
        self.s(st, "n", const(0))
        st.mem.pop(("G", "skipped"), None)

    def invariants(self, eng, st):
        k = self.g(st, "k")
        return (L.add(eng.seqlen(self.ofs(st)), aff(k), -1),) if k is not None else ()

    def on_result(self, eng, call, args, outs):
        if call["method"] != "next" or self.node is None: return
        def look(st, v):
            if v[0] == "adt" and v[1] == OPTION and v[2] == 1 and v[3][0][0] in ("ref", "rv"): return some(eng.load(st, v[3][0]))
            return v
        for st, v in outs:
            self.of = self.ofs(st)
            AstCk.on_result(self, eng, call, args, [(st, look(st, v))])

    def taken(self, eng, st, child, k):
        self.resolve(eng, st)
        g = self.g(st, "k")
        if g is not None and eqn(eng, st, k, g) and not eqn(eng, st, self.g(st, "r"), g): self.s(st, "skipped", MON(0))
        p, self.pred = self.pred, None
        try: AstCk.taken(self, eng, st, child, k)
        finally: self.pred = p

    def on_push(self, eng, st, ref, item, fn):
        it = self.strof(eng, st, item)
        if it[0] == "adt" and it[1] == DST:
            self.resolve(eng, st)
            g = self.g(st, "mine") or MON(0)
            self.s(st, "mine", MON(min(g[2] + 1, 4), *(g[3] + (eng.snap(st, it), num(eng.seqlen(eng.load(st, ref)))))[:6]))
            return
        if self.image is None or self.wanted and not self.wanted(eng, st, it): return
        self.resolve(eng, st)
        c = self.g(st, "cur")
        if self.g(st, "skipped") is not None: self.note(eng, "skip", "leaves out an element")
        if c is None or c[0] != "adt" or c[2] != 1:
            self.note(eng, "emit", "adds something that belongs to no element"); return
        if self.pred(eng, st, c[3][0]) is not True: self.note(eng, "emit", "adds something for an element that need not be part of the list")
        r = self.image(eng, st, eng.snap(st, it), c[3][0])
        if r is not True: self.note(eng, "image", r or "adds something other than what the element stands for")
        self.s(st, "r", self.g(st, "k"))
        self.s(st, "cur", MON(0))
        self.s(st, "n", num(L.shift(aff(self.g(st, "n")), 1)))

    def whole(self, eng, st, v):
        """the list v has one entry for each element, in order"""
        self.resolve(eng, st)
        v = self.strof(eng, st, v)
        k = self.g(st, "k")
        if k is None or self.g(st, "skipped") is not None: return False
        return eqn(eng, st, num(eng.seqlen(v)), self.g(st, "n")) and eqn(eng, st, k, num(eng.seqlen(self.ofs(st)))) and eqn(eng, st, self.g(st, "r"), k)


def all_of(eng, st, c): return True


def unref(eng, st, v):
    for _ in range(5):
        if v[0] in ("ref", "rv"): v = eng.load(st, v)
        else: return v
    return v


def sapp(eng, v):
    """(name, args) of an opaque function application"""
    x = eng.struct(v) if v[0] == "s" else None
    return (x[1].split("::")[-1], x[2:]) if x and x[0] == "app" else (None, ())


def lst(eng, name, *a):
    for full in FULL.get(name, ()): return eng.app("list:" + full, *a)


FULL = {}


class Cg(Suite):
    def __init__(self, F, M, rep, ctx):
        Suite.__init__(self, F, M, rep, ctx, "C20")
        for p, f in F.fns.items():
            if p.startswith("lang_fall_syntax::") and "{" not in p: FULL.setdefault(p.split("::")[-1], []).append(p.split("::", 1)[1])

    def bench(self):
        b = Bench(self.F, self.M, CgCk(self.F))
        b.eng.unroll = True
        b.k = b.ck
        return b

    def acc(self, ty, m):
        """short name of an accessor of a syntax node"""
        for p in self.F.fns:
            q = canon(p)
            if q.startswith("lang_fall_syntax::") and q.endswith("::" + m) and ("::" + ty + "::" in q or "::" + ty + "<" in q): return q.split("::", 1)[1]
        for p, f in self.F.fns.items():
            if p.startswith("lang_fall_syntax::ast_ext::") and p.endswith("::" + m) and "::" + ty + "<" in f.locals[1][0]["s"]: return p.split("::", 1)[1]
        raise CheckError("anchor missing: accessor %s of %s" % (m, ty))

    def say(self, fn, what, cond, key, msg): self.ok(fn, what, cond, key, msg)


# ------------------------------------------------------------------ resolution of calls
def resolve_call(S):
    F = S.F
    fn = F.fn(Q + "resolve_call::execute")
    b = S.bench()
    e, ck, st = b.eng, b.ck, b.st
    call = e.fresh("call")
    args = e.app("list:" + S.acc("CallExpr", "args"), call)
    name = e.app(S.acc("CallExpr", "fn_name"), call)
    ctxname = e.app(S.acc("CallExpr", "context_name"), call)
    rule = e.app("get:FindSynRule", name)
    ck.scan = {args}

    def pred(eng, st, el):
        """an argument of <prev_is> that is no public rule may be left out once that was reported"""
        if ck.textof(eng, st, name) != "prev_is": return True
        d = pub_rule(eng, ck, st, el)
        if d is False: return False if [r for r in ck.events(st, "report") if r[0] == ("str", "error")] else None
        return d
    ck.pred = pred
    nargs = num(e.seqlen(args))
    me = ("adt", Q + "ResolveCall", 0, (call,))

    def image(eng, st, item, el):
        """<prev_is>: the public rules the arguments refer to; calls of rules: parameters with arguments"""
        if item[0] == "tup" and len(item[1]) == 2:
            p, a = item[1]
            x = eng.struct(p) if p[0] == "s" else None
            y = eng.struct(a) if a[0] == "s" else None
            if a == el or (y and y[0] == "elem" and y[1] == args):
                if not (x and x[0] == "elem" and sapp(eng, x[1])[0] == "parameters" and eqn(eng, st, x[2], y[2])): return "pairs an argument with a parameter other than the one at its place"
                return True
            return "pairs a parameter with something other than an argument"
        ref = eng.fld(el, 0, "0", "RefExpr", EX)
        want = eng.fld(eng.fld(eng.app("get:ResolveRefExpr", ref), 0, "0", "Some", OPTION), 0, "0", "RuleReference", REFKIND)
        if item != want: return "lists something other than the rule an argument of <prev_is> refers to"
        return True
    ck.image = image
    outs = b.eng.run(fn, [me, e.fresh("db"), b.cell(e.fresh("sink"))], st)
    L_ = "resolution of calls"
    seen = {}
    for st, v in outs:
        if not feasible(st): continue
        reports = ck.events(st, "report")
        errs = [r for r in reports if r[0] == ("str", "error")]
        t = ck.textof(e, st, name)
        is_some, kind = opt(st, v)
        S.ok(L_, "answers", is_some is not None, "undecided", "gives an answer that is neither a construct nor nothing")
        if is_some is None: continue
        if not is_some:
            ctx_ok = t in BUILTINS and BUILTINS[t][3] and e.decide(st, ("c", "t", 0, True) if False else FALSE) is None
            if t in BUILTINS and BUILTINS[t][3] and not errs:
                # a context name that is not among the contexts of the file: impossible, AllContexts collects them all
                S.ok(L_, "gives up silently only if the context is not among all contexts", st.vars.get(ctxname[1]) == 1 and eqn(e, st, nargs, const(BUILTINS[t][1])), "silent:%s" % t, "answers nothing about <%s> without reporting a problem" % t, prop="C19")
            else:
                S.ok(L_, "reports why it gives up", bool(errs), "silent:%s" % (t or "call"), "answers nothing about %s without reporting a problem" % ("<%s>" % t if t else "a call of a rule"), prop="C19")
            seen.setdefault(t, set()).add(None)
            continue
        kind = unref(e, st, kind)
        vname = F.adts[CK]["variants"][kind[2]]["name"] if kind[0] == "adt" and kind[1] == CK else None
        S.ok(L_, "names a construct", vname is not None, "kind", "answers with something other than a construct")
        if vname is None: continue
        seen.setdefault(t, set()).add(vname)
        if t in BUILTINS:
            want, n, ops, ctx = BUILTINS[t]
            S.ok(L_, "<%s> is what its name says" % t, vname == want, "kind:%s" % t, "takes <%s> for %s" % (t, vname))
            if vname != want: continue
            fs = [unref(e, st, x) for x in kind[3]]
            if ctx:
                S.ok(L_, "<%s> refers to its context" % t, is_ctx(e, ck, st, fs[0], ctxname), "ctx:%s" % t, "numbers the context of <%s> by something other than its place among all contexts" % t)
                fs = fs[1:]
            S.ok(L_, "<%s> takes its operands in order" % t, fs == [e.index(st, args, const(i)) for i in ops], "ops:%s" % t, "takes the operands of <%s> from the wrong arguments" % t)
            S.ok(L_, "<%s> is accepted silently only with %d arguments" % (t, n), bool(errs) or eqn(e, st, nargs, const(n)), "arity:%s" % t, "accepts <%s> with another number of arguments than %d without reporting it" % (t, n), prop="C19 C20")
        elif t == "prev_is":
            S.ok(L_, "<prev_is> is what its name says", vname == "PrevIs", "kind:prev_is", "takes <prev_is> for %s" % vname)
            if vname != "PrevIs": continue
            S.ok(L_, "<prev_is> is accepted silently only if every argument is a public rule", bool(errs) or ck.whole(e, st, kind[3][0]), "prev_is", "leaves out an argument of <prev_is> without reporting it", prop="C19 C20")
        else:
            S.ok(L_, "any other name is a rule's", t is None and vname == "RuleCall", "kind:rule", "takes %s for %s" % (t or "a call of a rule", vname))
            if vname != "RuleCall": continue
            for w in BUILTINS:
                x = ck.texts.get(name, {}).get(w)
                S.ok(L_, "<%s> is no rule" % w, x is not None and e.decide(st, x) is False, "builtin:%s" % w, "does not recognise <%s>" % w)
            S.ok(L_, "calls the rule of that name", kind[3][0] == e.fld(rule, 0, "0", "Some", OPTION), "rule", "calls a rule other than the one that was named")
            lv = unref(e, st, kind[3][1])
            params = e.app("list:" + S.acc("Parameters", "parameters"), e.fld(e.app(S.acc("SynRule", "parameters"), kind[3][0]), 0, "0", "Some", OPTION))
            S.ok(L_, "all arguments are passed", bool(errs) or (eqn(e, st, num(e.seqlen(lv)), nargs) and eqn(e, st, num(e.seqlen(params)), nargs)), "args", "accepts a call that leaves out or adds arguments without reporting it", prop="C19 C20")
    for t, (want, n, ops, ctx) in BUILTINS.items():
        S.ok(L_, "<%s> can be resolved" % t, want in seen.get(t, ()), "never:%s" % t, "never resolves <%s>" % t)
    S.ok(L_, "<prev_is> can be resolved", "PrevIs" in seen.get("prev_is", ()), "never:prev_is", "never resolves <prev_is>")
    S.ok(L_, "rules can be called", "RuleCall" in seen.get(None, ()), "never:rule", "never resolves a call of a rule")
    S.done(b, L_, asserts=False)
    S.ctx.count("outcomes_compared", len(outs))


def variant_is(F, st, v, adt, name):
    """is the enum value v of this variant? None if unknown"""
    i = 1 if adt == OPTION and name == "Some" else vidx(F, adt, name)
    if v[0] == "adt": return v[2] == i
    k = st.vars.get(v[1]) if v[0] == "s" else None
    if k is None: return None
    return k == i


def chain(*fs):
    """conjunction in three-valued logic, evaluated lazily"""
    for f in fs:
        d = f()
        if d is not True: return d
    return True


def pub_rule(eng, ck, st, el):
    F = eng.F
    ref = eng.fld(el, 0, "0", "RefExpr", EX)
    got = eng.app("get:ResolveRefExpr", ref)
    kind = eng.fld(got, 0, "0", "Some", OPTION)
    rule = eng.fld(kind, 0, "0", "RuleReference", REFKIND)
    return chain(lambda: variant_is(F, st, el, EX, "RefExpr"), lambda: variant_is(F, st, got, OPTION, "Some"), lambda: variant_is(F, st, kind, REFKIND, "RuleReference"),
                 lambda: variant_is(F, st, eng.app("ast_ext::ty_name", rule), OPTION, "Some"))


def is_ctx(e, ck, st, v, ctxname):
    """v is the place of the context among all contexts of the file"""
    all_ = e.app("get:AllContexts")
    want = e.fld(ctxname, 0, "0", "Some", OPTION)
    return any(e.decide(st, e.cmp("Eq", e.index(st, a, v), want)) is True for a in (all_, e.load(st, all_)))


# ------------------------------------------------------------------ compilation
class Comp:
    """one run of a function of the compiler"""
    def __init__(self, S, fn, rec):
        self.S, self.F = S, S.F
        b = self.b = S.bench()
        self.e, self.ck, self.st = b.eng, b.ck, b.st
        self.fn = self.F.fn(CG + "::" + fn)
        self.ck.rec = {CG + "::" + r for r in rec}
        self.types, self.exprs = self.e.fresh("node_types"), self.e.fresh("expressions")
        fs = [None] * 3
        for n, v in (("analysis", self.e.fresh("analysis")), ("node_types", self.types), ("expressions", self.exprs)): fs[fidx(self.F, CG, n)] = v
        if len(self.F.adt(CG)["variants"][0]["fields"]) != 3: raise CheckError("anchor missing: fields of the compiler")
        self.me = b.cell(("adt", CG, 0, tuple(fs)))
        self.rules = self.e.app("list:" + S.acc("FallFile", "syn_rules"), self.e.app("ast"))
        self.ck.pred = all_of

    def run(self, *args):
        self.outs = [(s, v) for s, v in self.e.run(self.fn, [self.me] + list(args), self.st) if feasible(s)]
        return self.outs

    def raw(self, st, v):
        """the number in an index type"""
        v = unref(self.e, st, v)
        while v[0] == "adt" and len(v[3]) == 1 and v[1].startswith("fall_parse::"): v = v[3][0]
        return v

    def gen(self, st, x, f="gen_expr"): return self.e.app(f, self.e.snap(st, self.ck.strof(self.e, st, x)))

    def some(self, v, ok=OPTION): return self.e.fld(v, 0, "0", "Some" if ok == OPTION else "Ok", ok)

    def isgen(self, st, v, x): return self.raw(st, v) == self.gen(st, x)

    def is_rule(self, st, v, rule):
        e = self.e
        v = self.raw(st, v)
        x = e.index(st, self.rules, v)
        return e.decide(st, e.cmp("Eq", e.app("node", x), e.app("node", rule))) is True

    def is_type(self, st, v, name):
        """the place of a node type of that name, counted from 1 (0 is ERROR)"""
        e = self.e
        v = num(L.shift(aff(self.raw(st, v)), -1))
        x = e.fld(e.index(st, self.types, v), 0, "0")
        return e.decide(st, e.cmp("Eq", x, name)) is True

    def is_param(self, st, v, p): return self.raw(st, v) == self.e.app("param_ref", p)

    def kind(self, st, v, adt):
        """(name of the variant, fields) of an enum value"""
        v = unref(self.e, st, v)
        vs = self.F.adts[adt]["variants"] if adt != OPTION else None
        if v[0] == "adt":
            return (vs[v[2]]["name"], v[3])
        k = st.vars.get(v[1]) if v[0] == "s" else None
        if k is None: return (None, ())
        return (vs[k]["name"], tuple(self.e.fld(v, i, f["name"], vs[k]["name"], adt) for i, f in enumerate(vs[k]["fields"])))

    def known_some(self, st, v):
        v = unref(self.e, st, v)
        return v[2] == 1 if v[0] == "adt" else st.vars.get(v[1]) == 1

    def pushed(self, st):
        """the expressions added to the list: [(expression, place)]"""
        g = self.ck.g(st, "mine")
        if g is None: return []
        if 2 * g[2] != len(g[3]): return None
        return [(g[3][i], g[3][i + 1]) for i in range(0, len(g[3]), 2)]

    def result(self, st, v):
        """(succeeded, value)"""
        v = unref(self.e, st, v)
        if v[0] == "adt" and v[1] == RESULT: return v[2] == 0, v[3][0]
        return None, None


def result_of(C, st, v, what):
    """the expression that is compiled to; (variant, fields) or None"""
    S = C.S
    p = C.pushed(st)
    S.ok(what, "adds one expression", p is not None and len(p) == 1, "one", "does not add exactly one expression")
    if not p: return None
    x, at = p[0]
    S.ok(what, "returns where it is", eqn(C.e, st, C.raw(st, v), at), "place", "returns something other than the place of the expression it adds")
    return C.kind(st, x, DST)


ARITY = {"Eof": 0, "Any": 0, "Not": 1, "IsIn": 1, "Layer": 2, "WithSkip": 2, "Inject": 2, "Enter": 2, "Exit": 2}


def gen_expr(S):
    F = S.F
    need = {}
    for vi, var in enumerate(F.adt(EX)["variants"]):
        C = Comp(S, "gen_expr", ("gen_expr", "gen_pratt", "gen_rule"))
        e, ck = C.e, C.ck
        x = e.fresh("x")
        n = var["name"]
        W = "compilation of %s" % n
        ck.calls[CG + "::param_ref"] = lambda ck, eng, st, a, call: [(st, eng.app("param_ref", ck.strof(eng, st, a[1])))]
        res = kinds = None
        if n == "BlockExpr":
            ck.scan = {e.app("list:" + S.acc("BlockExpr", "alts"), x)}
            ck.image = lambda eng, st, item, el: C.isgen(st, item, el)
        elif n == "SeqExpr":
            ck.scan = {e.app("list:" + S.acc("SeqExpr", "parts"), x)}
            ck.pred = lambda eng, st, el: no3(commit3(C, st, el))
            ck.image = lambda eng, st, item, el: C.isgen(st, item, el)
        elif n == "CallExpr":
            kind = C.some(e.app("resolve_call", x))
            lists = {}
            for vn, fi in (("RuleCall", 1), ("PrevIs", 0)):
                l = e.fld(kind, fi, str(fi), vn, CK)
                lists[vn] = e.load(C.st, l)
            ck.scan = set(lists.values())

            def image(eng, st, item, el, kind=kind):
                k = C.kind(st, kind, CK)[0]
                if k == "RuleCall":
                    if item[0] != "tup" or len(item[1]) != 2: return "passes something other than a parameter with its argument"
                    p, a = (eng.fld(el, i, str(i)) for i in (0, 1))
                    return C.is_param(st, item[1][0], p) and C.isgen(st, item[1][1], a) or "passes an argument for the wrong parameter"
                if k == "PrevIs": return C.is_type(st, item, C.some(eng.app("ast_ext::ty_name", el))) or "lists something other than the node type of the rule"
                return "makes a list for %s" % k
            ck.image = image
        outs = C.run(("adt", EX, vi, (x,)))
        for st, v in outs:
            good, r = C.result(st, v)
            S.ok(W, "answers", good is not None, "undecided", "gives neither an expression nor an error")
            if not good: continue
            if n == "RefExpr":
                got = e.app("resolve_reference", x)
                S.ok(W, "only if it is resolved", C.known_some(st, got), "unresolved", "compiles a reference that is not resolved")
                k, f = C.kind(st, C.some(got), REFKIND)
                need.setdefault(n, set()).add(k)
                if k == "RuleReference":
                    S.ok(W, "a reference to a rule is the rule's expression", not C.pushed(st) and C.is_rule(st, r, f[0]), "rule", "compiles a reference to a rule to something other than the rule")
                    continue
                o = result_of(C, st, r, W)
                if o is None: continue
                if k == "Param":
                    S.ok(W, "a parameter is that parameter", o[0] == "Var" and C.is_param(st, o[1][0], f[0]), "param", "compiles a parameter to something else")
                elif k == "Token":
                    ctx = e.decide(st, e.app("ast_ext::is_contextual", f[0]))
                    name = e.app(S.acc("LexRule", "node_type"), f[0])
                    need[n].add("contextual" if ctx else "plain")
                    if ctx is True:
                        t = C.some(e.app("ast_ext::token_text", f[0]))
                        S.ok(W, "a contextual token is that token with its text", o[0] == "ContextualToken" and C.is_type(st, o[1][0], name) and text_of(C, st, o[1][1]) == t, "contextual", "compiles a contextual token to something else")
                    else: S.ok(W, "a token is that token", ctx is False and o[0] == "Token" and C.is_type(st, o[1][0], name), "token", "compiles a token to something else")
                else: S.ok(W, "decided", False, "kind", "compiles a reference without looking at what it refers to")
                continue
            if n == "CallExpr":
                got = e.app("resolve_call", x)
                S.ok(W, "only if it is resolved", C.known_some(st, got), "unresolved", "compiles a call that is not resolved")
                k, f = C.kind(st, C.some(got), CK)
                need.setdefault(n, set()).add(k)
                n_args = num(e.seqlen(e.app("list:" + S.acc("CallExpr", "args"), x)))
                if k in ARITY: want = const(ARITY[k])
                elif k == "PrevIs": want = num(e.seqlen(lists[k]))
                else:
                    ps = e.app(S.acc("SynRule", "parameters"), f[0]) if k == "RuleCall" else None
                    want = None if ps is None else num(e.seqlen(e.app("list:" + S.acc("Parameters", "parameters"), C.some(ps)))) if C.known_some(st, ps) else const(0)
                S.ok(W, "only with all arguments and no others", want is not None and eqn(e, st, n_args, want), "arity:%s" % k, "compiles a call of %s with arguments left out or left over" % k)
                o = result_of(C, st, r, W)
                if o is None: continue
                if k in ("Eof", "Any"): good = o == (k, ())
                elif k in ("Not",): good = o[0] == k and C.isgen(st, o[1][0], f[0])
                elif k in ("Layer", "WithSkip", "Inject"): good = o[0] == k and all(C.isgen(st, o[1][i], f[i]) for i in (0, 1))
                elif k in ("Enter", "Exit"): good = o[0] == k and C.raw(st, o[1][0]) == f[0] and C.isgen(st, o[1][1], f[1])
                elif k == "IsIn": good = o[0] == k and C.raw(st, o[1][0]) == f[0]
                elif k == "RuleCall": good = o[0] == "Call" and C.is_rule(st, o[1][0], f[0]) and ck.whole(e, st, o[1][1])
                elif k == "PrevIs": good = o[0] == "PrevIs" and ck.whole(e, st, o[1][0])
                else: good = False
                S.ok(W, "%s is compiled to itself with its operands in order" % k, good, "kind:%s" % k, "compiles %s to %s with other operands, or to something else" % (k, o[0]))
                continue
            o = result_of(C, st, r, W)
            if o is None: continue
            need.setdefault(n, set()).add(o[0])
            if n == "BlockExpr": S.ok(W, "is an alternative of all its branches in order", o[0] == "Or" and ck.whole(e, st, o[1][0]), "or", "is compiled to something other than the alternative of all its branches")
            elif n == "SeqExpr":
                S.ok(W, "is a sequence of all its parts in order", o[0] == "And" and ck.whole(e, st, o[1][0]), "and", "is compiled to something other than the sequence of all its parts")
                if o[0] == "And": S.ok(W, "commits where <commit> stands", commit_at(C, st, o[1][1]), "commit", "commits at a place other than that of <commit>")
            elif n in ("OptExpr", "RepExpr"):
                sub = e.app(S.acc(n, "expr"), x)
                S.ok(W, "is compiled to itself", o[0] == n[:3] and C.isgen(st, o[1][0], sub), "kind", "is compiled to %s of something" % o[0])
            else: S.ok(W, "is a known construct", False, "unknown", "is not a construct this analysis knows")
        S.done(b_of(C), W, asserts=False, panics=True)
        S.ctx.count("outcomes_compared", len(outs))
    for n, ks in (("RefExpr", ("RuleReference", "Param", "Token", "contextual", "plain")), ("CallExpr", ("Eof", "Any", "Not", "Layer", "WithSkip", "Inject", "Enter", "Exit", "IsIn", "RuleCall", "PrevIs")),
                  ("BlockExpr", ("Or",)), ("SeqExpr", ("And",)), ("OptExpr", ("Opt",)), ("RepExpr", ("Rep",))):
        for k in ks: S.ok("compilation of %s" % n, "%s can be compiled" % k, k in need.get(n, ()), "never:%s" % k, "never compiles %s" % k)


def fields(F, adt, variant, vals):
    vs = F.adt(adt)["variants"]
    return dict(zip([f["name"] for f in vs[vidx(F, adt, variant)]["fields"]], vals))


def gen_rule(S):
    F = S.F
    W = "compilation of a rule"
    C = Comp(S, "gen_rule", ("gen_expr", "gen_pratt", "gen_rule"))
    e, ck = C.e, C.ck
    rule = e.fresh("rule")
    body = e.fld(e.app(S.acc("SynRule", "body"), rule), 0, "0", "Some", OPTION)
    ty = e.app("ast_ext::ty_name", rule)
    flag = lambda st, n: e.decide(st, e.app("ast_ext::" + n, rule))
    seen = set()
    for st, v in C.run(rule):
        good, r = C.result(st, v)
        S.ok(W, "answers", good is not None, "undecided", "gives neither an expression nor an error")
        if not good: continue
        mine = C.pushed(st)
        S.ok(W, "adds what it needs", mine is not None, "many", "adds many expressions")
        if mine is None: continue
        pratt, repl, cached, typed = flag(st, "is_pratt"), flag(st, "is_replaces"), flag(st, "is_cached"), st.vars.get(ty[1])
        if pratt:
            table = e.app("gen_pratt", e.fld(body, 0, "0", "BlockExpr", EX))
            at = [(x, p) for x, p in mine if C.kind(st, x, DST)[0] == "Pratt"]
            S.ok(W, "an expression rule is its table", len(at) == 1 and C.kind(st, at[0][0], DST)[1][0] == table, "pratt", "compiles an expression rule to something other than the table of its body") if typed == 0 and False else None
            B = at[0][1] if len(at) == 1 and C.kind(st, at[0][0], DST)[1][0] == table else None
        else: B = C.gen(st, body)
        S.ok(W, "compiles the body", B is not None, "body", "does not compile the body of the rule")
        if B is None: continue
        is_b = lambda x: eqn(e, st, C.raw(st, x), B)
        k, f = C.kind(st, r, DST)
        d = fields(F, DST, k, f) if k else {}
        S.ok(W, "knows what kind of rule it is", typed is not None and (typed == 0 or repl is not None) and (repl or cached is not None), "flags", "does not look at all attributes of the rule")
        if typed == 1:
            if repl: good = k == "PubReplace" and is_b(d["body"])
            elif cached: good = k == "Pub" and any(C.kind(st, x, DST)[0] == "Cached" and is_b(C.kind(st, x, DST)[1][0]) and eqn(e, st, C.raw(st, d["body"]), at) for x, at in mine)
            else: good = k == "Pub" and is_b(d["body"])
            S.ok(W, "a public rule makes a node of its body", good, "pub", "compiles a public rule to %s of something other than its body" % k)
            if good:
                S.ok(W, "the node has the type of the rule", C.is_type(st, d["ty"], C.some(ty)), "type", "makes nodes of a type other than the rule's")
                if not repl:
                    x = d["replaceable"]
                    want = e.app("ast_ext::is_replaceable", rule)
                    S.ok(W, "it is replaceable if the rule says so", x == want or e.decide(st, x) is not None and e.decide(st, x) == e.decide(st, want), "replaceable", "makes a node replaceable although the rule does not say so, or the other way round")
            seen.add("replaces" if repl else "cached" if cached else "pub")
        elif typed == 0:
            S.ok(W, "a private rule replaces nothing", repl is False, "private", "compiles a private rule that replaces a node")
            if cached: good = k == "Cached" and is_b(f[0])
            elif pratt: good = unref(e, st, r) == ("adt", DST, vidx(F, DST, "Pratt"), (table,)) or (k == "Pratt" and f[0] == table)
            else:
                x = e.struct(r) if r[0] == "s" else None
                good = bool(x) and x[0] == "elem" and eqn(e, st, x[2], B) and x[1][0] == "s" and e.struct(x[1])[0] == "#" and e.struct(x[1])[2] == "expressions"
            S.ok(W, "a private rule is its body", good, "plain", "compiles a private rule to %s of something other than its body" % k)
            seen.add("private cached" if cached else "private pratt" if pratt else "private")
    for k in ("replaces", "cached", "pub", "private cached", "private pratt", "private"): S.ok(W, "%s rules can be compiled" % k, k in seen, "never:%s" % k, "never compiles %s rules" % k)
    S.done(C.b, W, asserts=False, panics=True)
    S.ctx.count("outcomes_compared", len(C.outs))


def gen_pratt(S):
    """the operator table: one entry for each branch, of the kind, type, operator and priority of the rule it names"""
    F = S.F
    W = "compilation of an expression table"
    C = Comp(S, "gen_pratt", ("gen_expr", "gen_pratt", "gen_rule"))
    e, ck = C.e, C.ck
    block = e.fresh("block")
    alts = e.app("list:" + S.acc("BlockExpr", "alts"), block)
    ck.scan = {alts}
    seen = set()
    TABLE, INFIX, PREFIX = "fall_parse::PrattTable", "fall_parse::Infix", "fall_parse::Prefix"

    def image(eng, st, item, el):
        seq = eng.fld(el, 0, "0", "SeqExpr", EX)
        parts = eng.app("list:" + S.acc("SeqExpr", "parts"), seq)
        first = eng.index(st, parts, const(0))
        got = eng.app("resolve_reference", eng.fld(first, 0, "0", "RefExpr", EX))
        rule = eng.fld(C.some(got), 0, "0", "RuleReference", REFKIND)
        if chain(lambda: variant_is(F, st, el, EX, "SeqExpr"), lambda: variant_is(F, st, first, EX, "RefExpr"), lambda: C.known_some(st, got), lambda: variant_is(F, st, C.some(got), REFKIND, "RuleReference")) is not True:
            return "adds an entry for a branch that names no rule"
        pv = eng.app("resolve_pratt_variant", rule)
        if not C.known_some(st, pv): return "adds an entry for a rule that is no part of an expression table"
        k, f = C.kind(st, C.some(pv), PV)
        tyname = C.some(eng.app("ast_ext::ty_name", rule))
        seen.add(k)
        if k == "Atom": return C.is_rule(st, item, rule) or "lists something other than the atom's rule"
        if item[0] != "adt" or item[1] not in (INFIX, PREFIX): return "makes something else than an operator of a %s rule" % k
        d = dict(zip([x["name"] for x in F.adt(item[1])["variants"][0]["fields"]], item[3]))
        op = lambda n: eng.fld(f[0], fidx(F, Q + "PrattOp", n), n, "", Q + "PrattOp")
        if (item[1] == PREFIX) != (k == "Prefix"): return "makes a %s operator of a %s rule" % ("prefix" if item[1] == PREFIX else "infix", k)
        if k != "Prefix" and d["has_rhs"] != (TRUE if k == "Bin" else FALSE): return "gets the operands of a %s rule wrong" % k
        if not C.is_type(st, d["ty"], tyname): return "gives an operator a type other than its rule's"
        if not C.isgen(st, d["op"], op("op")): return "takes something else for the operator of a rule"
        if d["priority"] != op("priority"): return "changes the priority of a rule"
        return True
    ck.image = image

    def push(self, eng, st, ref, item, fn, old=ck.on_push):
        it = self.strof(eng, st, item)
        # which of the three lists is it?
        nm = next((x[2] for x in reversed(ref[2] if ref[0] == "ref" else ()) if x[0] == "f"), None)
        want = {INFIX: "infixes", PREFIX: "prefixes"}.get(it[1] if it[0] == "adt" else None, "atoms")
        if nm in ("infixes", "prefixes", "atoms") and nm != want: self.note(eng, "list", "adds to the %s what belongs to the %s" % (nm, want))
        if not (it[0] == "adt" and it[1] == DST): self.s(st, "n:" + want, num(L.shift(aff(self.g(st, "n:" + want)), 1)))
        old(eng, st, ref, item, fn)
    for x in ("atoms", "prefixes", "infixes"): ck.s(C.st, "n:" + x, const(0))
    ck.on_push = lambda eng, st, ref, item, fn: push(ck, eng, st, ref, item, fn)
    for st, v in C.run(block):
        good, r = C.result(st, v)
        S.ok(W, "answers", good is not None, "undecided", "gives neither a table nor an error")
        if not good: continue
        t = unref(e, st, r)
        if t[0] == "adt" and t[1] == TABLE:
            full = all(eqn(e, st, num(e.seqlen(unref(e, st, t[3][fidx(F, TABLE, x)]))), ck.g(st, "n:" + x)) for x in ("atoms", "prefixes", "infixes"))
            ck.resolve(e, st)
            k = ck.g(st, "k")
            S.ok(W, "has an entry for every branch", eqn(e, st, k, num(e.seqlen(alts))) and eqn(e, st, ck.g(st, "r"), k) and ck.g(st, "skipped") is None, "all", "leaves out a branch of the table")
            S.ok(W, "holds exactly the entries that were added", full, "count", "the table does not hold what was added to it")
        else: S.ok(W, "is a table", False, "table", "answers with something other than a table")
    for k in ("Atom", "Prefix", "Postfix", "Bin"): S.ok(W, "%s rules can be compiled" % k, k in seen, "never:%s" % k, "never compiles %s rules" % k)
    S.done(C.b, W, asserts=False, panics=True)
    S.ctx.count("outcomes_compared", len(C.outs))


CTX = "fall_gen::generate::codegen::Ctx"


def ctx_fields(F, item):
    return dict(zip([f["name"] for f in F.adt(item[1])["variants"][0]["fields"]], item[3]))


def mentions(eng, v, x):
    """does the term v contain x?"""
    if v == x: return True
    if isinstance(v, tuple):
        if v and v[0] == "s" and len(v) == 2 and isinstance(v[1], int):
            y = eng.struct(v)
            return y is not None and y[0] != "#" and any(mentions(eng, z, x) for z in y[1:])
        if len(v) == 2 and v[0] == "T": return mentions(eng, ("s", v[1]), x)
        return any(mentions(eng, z, x) for z in v if isinstance(z, tuple))
    return False


def generate(S):
    """the tables handed to the template"""
    F = S.F
    W = "compilation of a file"
    C = Comp(S, "generate", ("gen_rule", "gen_method", "gen_expr", "gen_pratt"))
    e, ck = C.e, C.ck
    file = e.app("ast")
    tok = C.some(e.app(S.acc("FallFile", "tokenizer_def"), file))
    ast = C.some(e.app(S.acc("FallFile", "ast_def"), file))
    lex = e.app("list:" + S.acc("TokenizerDef", "lex_rules"), tok)
    nodes, classes, traits = (e.app("list:" + S.acc("AstDef", m), ast) for m in ("ast_nodes", "ast_classes", "ast_traits"))
    util = "fall_gen::util::"
    for n in ("camel", "scream"): ck.calls[util + n] = lambda ck, eng, st, a, call: [(st, eng.app(call["method"], ck.strof(eng, st, a[0])))]
    name = lambda el, ty: e.app(S.acc(ty, "name"), el)
    T3 = lambda eng, st, el: True
    is_ = lambda n: lambda item: item[0] == "adt" and item[1] == CTX + n

    def lex_image(eng, st, item, el):
        d = ctx_fields(F, item)
        if d["ty"] != e.app(S.acc("LexRule", "node_type"), el): return "gives a token rule the type of another"
        re_ = C.some(e.app("ast_ext::token_re", el))
        if not mentions(eng, d["re"], re_) or not any("new_debug" in str(x) for x in names_in(eng, d["re"])): return "gives a token rule another expression"
        if d["f"] != e.app("ast_ext::extern_fn", el): return "loses the function of a token rule"
        return True

    def node_image(eng, st, item, el):
        d = ctx_fields(F, item)
        n = name(el, "AstNodeDef")
        return d["struct_name"] == e.app("camel", n) and d["node_type_name"] == e.app("scream", n) or "declares a node under another name"

    def class_image(eng, st, item, el):
        return ctx_fields(F, item)["enum_name"] == e.app("camel", e.app("ast_ext::name", el)) or "declares a class under another name"

    def trait_image(eng, st, item, el):
        return ctx_fields(F, item)["trait_name"] == e.app("camel", name(el, "AstTraitDef")) or "declares a trait under another name"
    specs = {C.rules: (T3, lambda *a: "adds an entry for a rule", lambda item: False),
             lex: (lambda eng, st, el: no3(eng.decide(st, e.app("ast_ext::is_contextual", el))), lex_image, is_("LexRule")),
             nodes: (T3, node_image, is_("AstNode")), classes: (T3, class_image, is_("AstClass")), traits: (T3, trait_image, is_("AstTrait"))}
    ck.listspecs(specs)
    lists = {"lex_rules": lex, "ast_nodes": nodes, "ast_classes": classes, "ast_traits": traits}
    seen = {}

    def insert(ck, eng, st, a, call):
        if eng.quiet: return [(st, UNIT)]
        key = ck.strof(eng, st, a[1])[1]
        v = ck.strof(eng, st, a[2])
        seen[key] = seen.get(key, True)
        if key in lists:
            good = ck.ofs(st) == lists[key] and ck.whole(eng, st, v)
            S.ok(W, "%s are those of the file, all and in order" % key, good, "list:" + key, "%s handed to the template are not all those of the file in order" % key)
        elif key == "node_types": S.ok(W, "node_types are the numbered ones", v == C.types, "types", "the node types handed to the template are not the numbered ones")
        elif key == "parser_json":
            x = eng.struct(v) if v[0] == "s" else None
            good = bool(x) and x[0] == "app" and x[1] == "json" and ck.ofs(st) == C.rules and ck.rules_done(eng, st)
            S.ok(W, "the parser is that of all rules", good, "parser", "the parser handed to the template does not have every rule at its place")
        elif key == "verbatim":
            vd = e.app(S.acc("FallFile", "verbatim_def"), file)
            good = v == NONE if st.vars.get(vd[1]) == 0 else opt(st, v)[1] == e.app("ast_ext::contents", C.some(vd))
            S.ok(W, "verbatim code is that of the file", good, "verbatim", "the verbatim code handed to the template is not that of the file")
        return [(st, UNIT)]
    ck.calls["tera::context::Context::insert"] = insert

    def rules_done(eng, st):
        ck.resolve(eng, st)
        k = ck.g(st, "k")
        return ck.g(st, "skipped") is None and eqn(eng, st, k, num(eng.seqlen(C.rules))) and eqn(eng, st, ck.g(st, "r"), k)
    ck.rules_done = rules_done
    json = lambda ck, eng, st, a, call: [(st, ("adt", RESULT, 0, (eng.app("json", eng.snap(st, ck.strof(eng, st, a[0]))),)))]
    for n in ("serde_json::ser::to_string", "serde_json::to_string"): ck.calls[n] = json
    ei = fidx(F, CG, "expressions")

    def grows(ck, eng, st, a, call):
        """before the first rule is compiled there is a place for every rule"""
        v = unref(eng, st, a[0])
        if not eng.quiet: S.ok(W, "every rule has a place before others are added", eng.holds(st, L.add(eng.seqlen(v[3][ei]), eng.seqlen(C.rules), -1)), "room", "compiles rules before every rule has its place")
        return None
    ck.calls[CG + "::gen_rule"] = grows

    def on_write(eng, st, cell, proj, v, fn, span):
        if not proj or proj[-1][0] != "x" or not any(x[0] == "f" and x[2] == "expressions" for x in proj): return
        ck.resolve(eng, st)
        c = ck.g(st, "cur")
        x = eng.struct(v) if v[0] == "s" else None
        if c is None or c[2] != 1 or ck.ofs(st) != C.rules or not x or x[:2] != ("app", "gen_rule") or x[2] != c[3][0]:
            ck.note(eng, "place", "puts something other than the rule at hand into its place"); return
        y = eng.struct(c[3][0])
        if not (y and y[0] == "elem" and eqn(eng, st, y[2], proj[-1][1])): ck.note(eng, "place", "puts a rule into the place of another")
        ck.s(st, "r", ck.g(st, "k")); ck.s(st, "cur", MON(0))
    ck.on_write = on_write
    outs = C.run()
    S.ok(W, "can succeed", any(C.result(st, v)[0] for st, v in outs), "ok", "never succeeds")
    for k in ("node_types", "parser_json", "lex_rules", "verbatim", "ast_nodes", "ast_classes", "ast_traits"): S.ok(W, "%s reach the template" % k, k in seen, "missing:" + k, "%s are not handed to the template" % k)
    S.done(C.b, W, asserts=False, panics=True)
    S.ctx.count("outcomes_compared", len(outs))


def new(S):
    """the numbering of node types: tokens in order, then public rules without a type of another in order"""
    F = S.F
    W = "numbering of node types"
    b = S.bench()
    e, ck = b.eng, b.ck
    file = e.app("ast")
    tokdef = e.app(S.acc("FallFile", "tokenizer_def"), file)
    lex = e.app("list:" + S.acc("TokenizerDef", "lex_rules"), e.fld(tokdef, 0, "0", "Some", OPTION))
    rules = e.app("list:" + S.acc("FallFile", "syn_rules"), file)

    def named(eng, st, el):
        """is this a public rule with a name and without the type of another?"""
        pub = eng.decide(st, eng.app("ast_ext::is_pub", el))
        if pub is False: return False
        t = st.vars.get(eng.app("ast_ext::type_attr", el)[1])
        if t == 1: return False
        n = st.vars.get(eng.app(S.acc("SynRule", "name"), el)[1])
        if n == 0: return False
        return True if pub is True and t == 0 and n == 1 else None

    def lex_image(eng, st, item, el):
        it = unref(eng, st, item)
        return it[0] == "tup" and it[1] == (eng.app(S.acc("LexRule", "node_type"), el), eng.app("ast_ext::is_skip", el)) or "numbers something other than a token under its name"

    def rule_image(eng, st, item, el):
        it = unref(eng, st, item)
        return it[0] == "tup" and it[1] == (eng.fld(eng.app(S.acc("SynRule", "name"), el), 0, "0", "Some", OPTION), FALSE) or "numbers something other than a rule under its name"
    item = lambda it: it[0] == "tup" and len(it[1]) == 2
    ck.listspecs({lex: (all_of, lex_image, item), rules: (named, rule_image, item)})
    ck.on_variant = lambda eng, st, i, idx, path: ck.resolve(eng, st)
    first = []

    def start(eng, st, seq, old=ck.start):
        ck.resolve(eng, st)
        if seq == lex: ck.s(st, "lex", MON(1))
        if seq == rules:
            k = ck.g(st, "k")
            whole = ck.ofs(st) == lex and eqn(eng, st, k, num(eng.seqlen(lex))) and eqn(eng, st, ck.g(st, "r"), k) and ck.g(st, "skipped") is None
            ck.s(st, "whole", MON(1 if whole else 0))
        old(eng, st, seq)
    ck.start = start
    fn = F.fn(CG + "::new")
    outs = [(s, v) for s, v in e.run(fn, [e.fresh("analysis")], b.st) if feasible(s)]
    S.ok(W, "has an outcome", bool(outs), "outs", "never returns")
    some_ = set()
    for st, v in outs:
        ck.resolve(e, st)
        v = unref(e, st, v)
        k = ck.g(st, "k")
        S.ok(W, "numbers the rules last", ck.ofs(st) == rules and k is not None, "rules", "does not number the rules after the tokens")
        if k is None or ck.ofs(st) != rules: continue
        S.ok(W, "every rule that makes a type is numbered", eqn(e, st, k, num(e.seqlen(rules))) and eqn(e, st, ck.g(st, "r"), k) and ck.g(st, "skipped") is None, "rules:all", "may leave out a rule that makes a node type")
        w = ck.g(st, "whole")
        has = st.vars.get(tokdef[1])
        some_.add(has)
        S.ok(W, "every token is numbered, before the rules", has == 0 and ck.g(st, "lex") is None or w == MON(1), "tokens:all", "may leave out a token, or numbers tokens after rules")
        S.ok(W, "nothing is compiled yet", v[0] == "adt" and eqn(e, st, num(e.seqlen(unref(e, st, v[3][fidx(F, CG, "expressions")]))), const(0)), "empty", "starts with expressions that nothing stands for")
    S.ok(W, "numbers tokens", 1 in some_, "tokens", "never numbers tokens")
    S.done(b, W, asserts=False, panics=True)
    S.ctx.count("outcomes_compared", len(outs))


def within(eng, st, v, x, depth=0):
    """is x part of v, or of what v refers to?"""
    if depth > 12 or not isinstance(v, tuple): return False
    if v == x or v and v[0] == "s" and mentions(eng, v, x): return True
    if v and v[0] in ("ref", "rv"):
        return within(eng, st, eng.load(st, v), x, depth + 1)
    return any(within(eng, st, y, x, depth + 1) for y in v if isinstance(y, tuple))


def param_ref(S):
    """parameters are numbered by their place in a list that is the same for all of them"""
    F = S.F
    W = "numbering of parameters"
    C = Comp(S, "param_ref", ())
    e, ck = C.e, C.ck
    param = e.fresh("param")
    looked = []

    def position(eng, st, args, call):
        from builtins_rs import it_next
        s = st.copy()
        s.mem[("G", "it")] = eng.load(st, args[0]) if args[0][0] == "ref" else args[0]
        looked.append(not within(eng, st, args[0], param))
        outs = it_next(eng, s, ("ref", ("G", "it"), ()), call)
        if outs is None: raise CheckError("cannot follow the numbering of parameters")
        for o, v in outs:
            if not feasible(o) or not opt(o, v)[0]: continue
            x = v[3][0] if v[0] == "adt" else eng.fld(v, 0, "0", "Some", OPTION)
            x = ck.strof(eng, o, x)
            looked.append(not mentions(eng, x, param))
            n = eng.cmp("Eq", eng.app("node", x), eng.app("node", param))
            for o2, b in eng.call_closure(o, args[1], [x], call):
                for o3, t in eng.fork(o2, b): looked.append(not feasible(o3) or eng.decide(o3, n) is t or eng.decide(o3, eng.cmp("Eq", x, param)) is t)
        idx = eng.fresh("place")
        ck.s(st, "place", MON(1, idx))
        return [(st, some(idx)), (st.copy(), NONE)]
    ck.position = position
    outs = C.run(param)
    S.ok(W, "has an outcome", bool(outs), "outs", "never returns")
    S.ok(W, "looks for the parameter itself, in a list that does not depend on it", bool(looked) and all(looked), "same", "two parameters may get the same number")
    for st, v in outs:
        g = ck.g(st, "place")
        S.ok(W, "the number is its place", g is not None and C.raw(st, v) == g[3][0], "place", "the number of a parameter is not its place in the list of all parameters")
    S.done(C.b, W, asserts=False, panics=True)
    S.ctx.count("outcomes_compared", len(outs))


def names_in(eng, v, out=None):
    out = set() if out is None else out
    if isinstance(v, tuple):
        if v and v[0] == "s" and len(v) == 2 and isinstance(v[1], int):
            y = eng.struct(v)
            if y and y[0] == "app":
                out.add(y[1])
                for z in y[2:]: names_in(eng, z, out)
            elif y and y[0] != "#":
                for z in y[1:]: names_in(eng, z, out)
        elif len(v) == 2 and v[0] == "T": names_in(eng, ("s", v[1]), out)
        else:
            for z in v: names_in(eng, z, out)
    return out


def b_of(C): return C.b


def no3(d): return None if d is None else not d


def commit3(C, st, el):
    """is this part of a sequence <commit>?"""
    F, e, ck = C.F, C.e, C.ck
    d = variant_is(F, st, el, EX, "CallExpr")
    if d is not True: return d
    call = e.fld(el, 0, "0", "CallExpr", EX)
    x = ck.texts.get(e.app(C.S.acc("CallExpr", "fn_name"), call), {}).get("commit")
    d = e.decide(st, x) if x is not None else None
    if d is not None: return d
    got = e.app("resolve_call", call)
    k = st.vars.get(got[1])
    if k == 0: return False
    if k == 1: return variant_is(F, st, C.some(got), CK, "Commit")
    return None


def commit_at(C, st, v):
    e, ck = C.e, C.ck
    is_some, idx = opt(st, unref(e, st, v))
    if is_some is None: return False
    ps = [p for p in ck.pos.values() if p[0] in ck.scan]
    if is_some:
        p = ck.pos.get(idx)
        x = p[1] if p else e.index(st, next(iter(ck.scan)), idx)
        return commit3(C, st, x) is True
    # none: whatever was looked for was <commit> and nothing else
    return bool(ps) and all(commit3(C, s, x) is True for _, x, yes, no in ps for s in yes) and all(commit3(C, s, x) is False for _, x, yes, no in ps for s in no)


def text_of(C, st, v):
    for _ in range(6):
        v = unref(C.e, st, v)
        n, a = sapp(C.e, v)
        if n in ("to_string", "to_owned", "to_cow", "from", "into", "clone") and a: v = a[0]
        else: return v
    return v


def analyse(F, M, rep, ctx):
    S = Cg(F, M, rep, ctx)
    resolve_call(S)
    gen_expr(S)
    gen_rule(S)
    gen_pratt(S)
    generate(S)
    new(S)
    param_ref(S)
