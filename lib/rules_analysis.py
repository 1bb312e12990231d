"""C19: every problem a query can find is reported: the driver asks every reporting query for every element it applies
to and returns all reports in order; a query gives up only after it has said why; the scans report every offender."""
from ast_layer import *
from rules_text import Bench, fidx, vidx
from rules_search import Suite, opt
from rules_codegen import CgCk, Cg, Q, CK, REFKIND, PV, EX, unref, sapp, variant_is, names_in, RESULT
from callgraph import Graph
from absint import *

AN = "lang_fall::analysis::Analysis"
DIAG = "fall_editor::Diagnostic"
SEV = "fall_editor::Severity"
VIS = "fall_tree::visitor::"
W = "collecting diagnostics"


class AnCk(CgCk):
    """reports are counted, not kept (small enough for loops)"""
    def report(self, eng, st, severity, node, msg):
        self.s(st, "reported", MON(1))
        self.s(st, "due", MON(0))
        self.settled(eng, st)

    def settled(self, eng, st):
        c = self.g(st, "cur")
        if c is not None and c[0] == "adt" and c[2] == 1 and self.scan:
            self.s(st, "r", self.g(st, "k")); self.s(st, "cur", MON(0))

    def on_variant(self, eng, st, i, idx, path): self.resolve(eng, st)

    def reported(self, st): return self.g(st, "reported") is not None


class An(Cg):
    def __init__(self, F, M, rep, ctx):
        Cg.__init__(self, F, M, rep, ctx)
        self.prop = "C19"

    def bench(self):
        b = Bench(self.F, self.M, AnCk(self.F))
        b.eng.unroll = True
        b.k = b.ck
        b.ck.pred = lambda eng, st, el: True
        return b

    def query(self, module, name, *key):
        """interpret the body of a query"""
        b = self.bench()
        fn = self.F.fn(Q + module + "::execute")
        b.fn = fn
        b.me = ("adt", Q + name, 0, tuple(key))
        return b

    def go(self, b):
        a = [b.me, b.eng.fresh("db"), b.cell(b.eng.fresh("sink"))][:b.fn.argc]
        return [(s, v) for s, v in b.eng.run(b.fn, a, b.st) if feasible(s)]


# ------------------------------------------------------------------ who reports
def reporting(S):
    """queries whose own code reaches a report (without what other queries report): name -> type of the key, or None"""
    F = S.F
    g = Graph(F)
    out = {}
    sinks = {p for p in F.fns if p.startswith(SINK + "::") and p.split("::")[-1] in ("error", "warning")}
    if len(sinks) != 2: raise CheckError("anchor missing: DiagnosticSink::error and warning")
    roots = {x for (tr, m), xs in g.impls.items() if tr.endswith("db::OnceQExecutor") and m == "execute" for x in xs}
    if not roots: raise CheckError("anchor missing: query bodies")
    for r in sorted(roots):
        S.ctx.count("queries")
        fn = F.fns[r]
        q = fn.locals[1][0]
        if q["k"] != "adt": raise CheckError("anchor missing: query type of " + r)
        path = canon(q["def"])
        if not g.reach([r], stop={DB + "::get"}) & sinks: continue
        fs = F.adt(path)["variants"][0]["fields"]
        if len(fs) > 1: raise CheckError("query %s has more than one key" % path)
        out[path.split("::")[-1]] = tyname(fs[0]["ty"]).split("::")[-1] if fs else None
    return out


# ------------------------------------------------------------------ the driver
class DrvCk(AnCk):
    def __init__(self, F):
        AnCk.__init__(self, F)
        self.visits = []
        self.covered = {}
        self.at_lock = []
        self.need = {}

    def intercept(self, eng, st, name, args, call):
        if name == VIS + "VisitorBuilder::visit":
            t = [tyname(x).split("::")[-1] for x in call["targs"]]
            self.visits.append((t, args[1]))
            self.s(st, "visitors", MON(len(self.visits)))
            return [(st, args[0])]
        if name == VIS + "visitor": return [(st, eng.app("visitor"))]
        if name.startswith(VIS + "process_subtree") or name.startswith("fall_tree::search::traversal::"):
            root = val(eng, st, args[0])
            self.roots = getattr(self, "roots", []) + [(st, root)]
            if name.startswith(VIS):
                for t, clo in self.visits: self.visit(eng, st, t, clo, call)
            return [(st, UNIT)]
        if name == DB + "::get":
            q = val(eng, st, args[1])
            t = q[1].split("::")[-1] if q[0] == "adt" else None
            if t:
                if not q[3]: self.s(st, "asked:" + t, MON(1))
                else:
                    k = self.strof(eng, st, val(eng, st, q[3][0]))
                    self.s(st, "asked:" + t, MON(2, k))
                    c = self.g(st, "cur")
                    if c is not None and c[2] == 1 and c[3][0] == k:
                        self.s(st, "r:" + t, self.g(st, "k"))
        if call["method"] == "lock" and call["name"].startswith("std::sync::"):
            self.at_lock.append(st.copy())
            return [(st, ("adt", RESULT, 0, (self.cellfor(eng, st, args[0]),)))]
        if name.startswith("<std::sync::poison::mutex::MutexGuard") and call["method"] in ("deref", "deref_mut"): return [(st, unref1(eng, st, args[0]))]
        if name.startswith(("alloc::slice::sort", "core::slice::sort")):
            v = unref(eng, st, args[0])
            fs = {"sort_by_cached_key": 1, "sort_by_key": 1, "sort_unstable_by_key": 1}
            how = self.key(eng, st, args[1], call) if name.split("::")[-1] in fs else None
            r = eng.deref(args[0])
            for _ in range(5):
                x = eng.load(st, r)
                if x[0] in ("ref", "rv"): r = eng.deref(x) if x[0] == "ref" else x
                else: break
            new = eng.app("sorted", v, how if how is not None else ("str", "?"))
            if r[0] == "ref": eng.store(st, r, new)
            return [(st, UNIT)]
        return AnCk.intercept(self, eng, st, name, args, call)

    def cellfor(self, eng, st, a):
        """the diagnostics collected so far"""
        if ("G", "all") not in st.mem: st.mem[("G", "all")] = eng.app("diagnostics")
        return ("ref", ("G", "all"), ())

    def visit(self, eng, st, t, clo, call):
        for ty in t[-2:-1]:
            x = eng.fresh("visited")
            s1 = st.copy()
            self.s(s1, "visiting", MON(1))
            outs = eng.call_closure(s1, clo, [x, ("ref", ("G", "vctx"), ())], call)
            s1.mem[("G", "vctx")] = UNIT
            for q in self.need:
                good = all(self.g(s, "asked:" + q) == MON(2, x) for s, _ in outs if feasible(s)) and any(feasible(s) for s, _ in outs)
                if good: self.covered.setdefault(q, set()).add(ty)

    def key(self, eng, st, clo, call):
        """(severity, start, end, message) taken from the key of a diagnostic; None if it is something else"""
        d = eng.fresh("diagnostic")
        st.mem[("G", "diag")] = d
        res = []
        sev = eng.fld(d, fidx(eng.F, DIAG, "severity"), "severity", "", DIAG)
        rng = eng.fld(d, fidx(eng.F, DIAG, "range"), "range", "", DIAG)
        msg = eng.fld(d, fidx(eng.F, DIAG, "message"), "message", "", DIAG)
        start = eng.fld(rng, fidx(eng.F, RANGE, "start"), "start", "", RANGE)
        end = eng.fld(rng, fidx(eng.F, RANGE, "end"), "end", "", RANGE)
        ranks = {}
        order = set()
        for s, v in eng.call_closure(st.copy(), clo, [("ref", ("G", "diag"), ())], call):
            if not feasible(s): continue
            xs = flat(eng, s, v)
            if not xs: return None
            k = s.vars.get(sev[1]) if sev[0] == "s" else None
            first = xs[0]
            names = []
            for x in xs[1:]:
                names.append("start" if x == start else "end" if x == end else "message" if x == msg or msg in deep(eng, x) else "range" if x == rng else "?")
            order.add(tuple(names))
            if k is None: return None
            a = aff(first) if first[0] in ("i", "k", "s") else None
            ranks.setdefault(k, set()).add(first)
        if len(order) != 1: return None
        names = list(order.pop())
        ei, wi = vidx(eng.F, SEV, "Error"), vidx(eng.F, SEV, "Warning")
        if set(ranks) != {ei, wi} or any(len(x) != 1 for x in ranks.values()): return None
        e, w = next(iter(ranks[ei])), next(iter(ranks[wi]))
        d = L.shift(L.add(aff(w), aff(e), -1), -1)
        return ("str", "severity,%s" % ",".join(names)) if eng.holds(st, d) else None


def unref1(eng, st, v):
    for _ in range(5):
        x = eng.load(st, v)
        if x[0] in ("ref", "rv"): v = x
        else: return v
    return v


def flat(eng, st, v):
    v = unref(eng, st, v)
    if v[0] == "tup": return [y for x in v[1] for y in flat(eng, st, x)]
    return [v]


def deep(eng, v):
    """the terms v is made of by library functions"""
    out = [v]
    x = eng.struct(v) if v[0] == "s" else None
    if x and x[0] == "app":
        for y in x[2:]: out += deep(eng, y)
    if v[0] == "rv": out += deep(eng, v[1])
    return out


RANGE = "fall_text::text_range::TextRange"


def driver(S):
    F = S.F
    need = reporting(S)
    S.ctx.count("reporting_queries", len(need))
    b = Bench(F, S.M, DrvCk(F))
    b.eng.unroll = True
    b.k = b.ck
    e, ck = b.eng, b.ck
    ck.need = need
    ck.pred = lambda eng, st, el: True
    fn = F.fn(AN + "::collect_all_diagnostics")
    me = e.fresh("analysis")
    outs = [(s, v) for s, v in e.run(fn, [me], b.st) if feasible(s)]
    root = e.app("node", e.app("ast"))
    S.ok(W, "has an outcome", bool(outs), "outs", "never returns")
    for st, r in getattr(ck, "roots", []):
        S.ok(W, "goes through the whole file", r == root, "root", "does not go through the whole file")
    S.ok(W, "takes what was reported", bool(ck.at_lock), "lock", "does not look at what was reported")
    for q, ty in sorted(need.items()):
        if ty is None:
            S.ok(W, "%s is asked" % q, all(ck.g(s, "asked:" + q) == MON(1) for s in ck.at_lock) and bool(ck.at_lock), "ask:" + q, "does not ask %s before it takes what was reported" % q)
        else:
            S.ok(W, "%s is asked for every %s" % (q, ty), ty in ck.covered.get(q, ()), "ask:" + q, "does not ask %s for every %s of the file" % (q, ty))
            S.ok(W, "%s is asked in time" % q, all(ck.g(s, "visitors") is not None for s in ck.at_lock), "late:" + q, "takes what was reported before %s was asked" % q)
    all_ = e.app("diagnostics")
    for st, v in outs:
        v = unref(e, st, v)
        n, a = sapp(e, v)
        S.ok(W, "returns everything reported", n == "sorted" and a[0] == all_, "all", "returns something other than everything that was reported")
        if n == "sorted":
            how = a[1][1] if a[1][0] == "str" else "?"
            S.ok(W, "errors come before warnings, in order of position", how.startswith(("severity,start", "severity,range")), "sorted", "does not return errors before warnings and each in order of position")
            S.rep.ok("C21", "%s: reports that compare equal are equal" % W, set(("start", "end", "message")) <= set(how.split(",")), "diagnostics:key", "diagnostics are sorted by a key under which different reports compare equal (the order of reporting depends on hash maps)")
        else: S.rep.ok("C21", "%s: sorted" % W, False, "diagnostics:key", "diagnostics are returned in the order of reporting, which depends on hash maps")
    S.done(b, W, asserts=False, panics=True)


def sink(S):
    """a report says what it is about"""
    F = S.F
    for m, sev in (("error", "Error"), ("warning", "Warning")):
        b = Bench(F, S.M, NodeCk())
        e = b.eng
        pushed = []
        b.ck.on_push = lambda eng, st, ref, item, fn, pushed=pushed: pushed.append((st, item)) if not eng.quiet else None
        node, msg = e.fresh("node"), e.fresh("message")
        list_ = b.cell(e.fresh("list"))
        sk = b.cell(("adt", SINK, 0, (list_,)))
        outs = b.run(F.fn(SINK + "::" + m), [sk, node, msg])
        w = "DiagnosticSink::" + m
        S.ok(w, "records one problem", len(pushed) == len(outs) == 1, "one", "does not record exactly one problem")
        for st, it in pushed:
            it = unref(e, st, it)
            ok = it[0] == "adt" and it[1] == DIAG
            S.ok(w, "records a problem", ok, "what", "records something else than a problem")
            if not ok: continue
            d = it[3]
            S.ok(w, "has the severity of its name", unref(e, st, d[fidx(F, DIAG, "severity")])[2:3] == (vidx(F, SEV, sev),), "severity", "records the wrong severity")
            r = unref(e, st, d[fidx(F, DIAG, "range")])
            S.ok(w, "has the range of the node", r == b.ck.rangeof(e, st, node), "range", "records a range other than that of the node")
            S.ok(w, "has the message", msg in deep(e, d[fidx(F, DIAG, "message")]), "message", "loses the message")
        S.done(b, w)


# ------------------------------------------------------------------ queries that resolve
def resolve_ref(S):
    F = S.F
    ref = "ref"
    b = S.query("resolve_ref_expr", "ResolveRefExpr")
    e, ck = b.eng, b.ck
    ref = e.fresh("ref")
    b.me = ("adt", Q + "ResolveRefExpr", 0, (ref,))
    name = e.app(S.acc("RefExpr", "reference_name"), ref)
    rule, tok = e.app("get:FindSynRule", name), e.app("get:FindLexRule", name)
    w = "resolution of references"
    outs = S.go(b)
    kinds = set()
    for st, v in outs:
        is_some, x = opt(st, v)
        S.ok(w, "answers", is_some is not None, "undecided", "answers neither with something nor with nothing")
        if is_some is None: continue
        if is_some:
            x = unref(e, st, x)
            k = F.adts[REFKIND]["variants"][x[2]]["name"] if x[0] == "adt" and x[1] == REFKIND else None
            kinds.add(k)
            if k == "Param":
                p = x[3][0]
                y = e.struct(p)
                good = y and y[0] == "elem" and e.decide(st, e.cmp("Eq", e.app(S.acc("Parameter", "name"), p), name)) is True
                own = good and any("ancestor_exn<SynRule>" in n for n in names_in(e, p)) and mentions_node(e, p, ref)
                S.rep.ok("C20", w + ": a parameter of the enclosing rule of that name", good and own, w + ":param", "a reference is resolved to something other than the parameter of its name of the rule it is in")
            elif k == "RuleReference": S.rep.ok("C20", w + ": the rule of that name", x[3][0] == e.fld(rule, 0, "0", "Some", OPTION), w + ":rule", "a reference is resolved to another rule")
            elif k == "Token": S.rep.ok("C20", w + ": the token of that name", x[3][0] == e.fld(tok, 0, "0", "Some", OPTION) and variant_is(F, st, rule, OPTION, "Some") is False, w + ":token", "a reference is resolved to another token, or to a token although there is a rule of that name")
            else: S.ok(w, "names a kind of reference", False, "kind", "answers with something else than a kind of reference")
            continue
        if ck.reported(st): S.ok(w, "reports why it gives up", True, "silent", ""); continue
        # the first argument of <enter>, <exit>, <is_in> is a context
        par = e.app("parent", e.app("node", ref))
        isc = e.app("is:CallExpr", par)
        call = e.app("as:CallExpr", par)
        c1 = e.decide(st, isc) is True
        ctx = st.vars.get(e.app(S.acc("CallExpr", "context_name"), call)[1]) == 1
        first = e.index(st, e.app("list:" + S.acc("CallExpr", "args"), call), const(0))
        eq = e.decide(st, e.cmp("Eq", e.app("node", first), e.app("node", ref)))
        S.ok(w, "gives up silently only on the context of a call", c1 and ctx and eq is True, "silent", "answers nothing about a reference without reporting a problem")
        S.ok(w, "gives up only if nothing has that name", variant_is(F, st, rule, OPTION, "Some") is False and variant_is(F, st, tok, OPTION, "Some") is False, "lost", "gives up although a rule or token has that name")
    for k in ("Param", "RuleReference", "Token"): S.rep.ok("C20", "%s: %s is possible" % (w, k), k in kinds, "%s:never:%s" % (w, k), "a reference is never resolved to a %s" % k)
    S.done(b, w, asserts=False, panics=True)
    S.ctx.count("outcomes_compared", len(outs))


def mentions_node(e, v, ref):
    from rules_codegen import mentions
    return mentions(e, v, e.app("node", ref))


def pratt(S):
    F = S.F
    w = "resolution of operator rules"
    b = S.query("resolve_pratt_variant", "x")
    e, ck = b.eng, b.ck
    rule = e.fresh("rule")
    b.me = ("adt", Q + "ResolvePrattVariant", 0, (rule,))
    A = lambda m, x: e.app(S.acc("SynRule", m), x)
    attrs = C_some(e, A("attributes", rule))
    body = C_some(e, A("body", rule))
    block = e.fld(body, 0, "0", "BlockExpr", EX)
    alts = e.app("list:" + S.acc("BlockExpr", "alts"), block)
    alt = e.index(b.st, alts, const(0))
    parts = e.app("list:" + S.acc("SeqExpr", "parts"), e.fld(alt, 0, "0", "SeqExpr", EX))
    finds = {}

    def find(ck, eng, st, a, call):
        x = ck.strof(eng, st, a[1])
        t = eng.app("ast_ext::find", ck.strof(eng, st, a[0]), x)
        if x[0] == "str": finds[x[1]] = t
        return [(st, t)]
    fname = next((p for p in F.fns if p.startswith("lang_fall_syntax::ast_ext::") and p.endswith("::find")), None)
    if fname is None: raise CheckError("anchor missing: Attributes::find")
    ck.calls[fname] = find
    outs = S.go(b)
    kinds = set()
    NAMES = {"Atom": ("atom", None, None), "Postfix": ("postfix", 2, 1), "Prefix": ("prefix", 2, 0), "Bin": ("bin", 3, 1)}

    def has(st, k): return None if k not in finds else st.vars.get(finds[k][1])
    for st, v in outs:
        is_some, x = opt(st, v)
        S.ok(w, "answers", is_some is not None, "undecided", "answers neither with something nor with nothing")
        if is_some is None: continue
        if is_some:
            x = unref(e, st, x)
            k = F.adts[PV]["variants"][x[2]]["name"] if x[0] == "adt" and x[1] == PV else None
            S.ok(w, "names a kind of operator", k is not None, "kind", "answers with something else than a kind of operator")
            if k is None: continue
            kinds.add(k)
            word, n, at = NAMES[k]
            S.rep.ok("C20", "%s: #[%s] is what its name says" % (w, word), has(st, word) == 1, "%s:kind:%s" % (w, k), "a rule without #[%s] is taken for a %s" % (word, k))
            prio = e.app("ast_ext::u32_value", C_some(e, finds[word])) if word in finds else None
            if k == "Atom":
                S.rep.ok("C20", "%s: an atom is the rule's body" % w, x[3][0] == body, w + ":atom", "an atom is something other than the body of its rule")
                S.ok(w, "an atom with a priority is reported", ck.reported(st) or prio is None or st.vars.get(prio[1]) == 0, "atom", "accepts an atom with a priority without reporting it")
                continue
            op = x[3][0]
            f = {y["name"]: op[3][i] for i, y in enumerate(F.adt(Q + "PrattOp")["variants"][0]["fields"])} if op[0] == "adt" else {}
            S.rep.ok("C20", "%s: the operator of %s is the part at its place" % (w, k), f.get("op") == e.index(st, parts, const(at)), "%s:op:%s" % (w, k), "takes the wrong part of a %s rule for its operator" % k)
            one = eqn(e, st, num(e.seqlen(alts)), const(1)) and eqn(e, st, num(e.seqlen(parts)), const(n))
            S.ok(w, "%s rules have %d parts" % (k, n), one or ck.reported(st), "parts:%s" % k, "accepts a %s rule with another number of parts or alternatives without reporting it" % k)
            known = st.vars.get(prio[1]) if prio else None
            if known == 1: S.rep.ok("C20", "%s: the priority of %s is the one written" % (w, k), f.get("priority") == C_some(e, prio), "%s:prio:%s" % (w, k), "changes the priority of a %s rule" % k)
            else:
                S.ok(w, "binary operators have a priority", k != "Bin" or ck.reported(st), "noprio", "accepts a binary operator without a priority")
            continue
        if ck.reported(st): S.ok(w, "reports why it gives up", True, "silent", ""); continue
        noname = st.vars.get(A("name_ident", rule)[1]) == 0
        noattr = st.vars.get(A("attributes", rule)[1]) == 0
        nobody = st.vars.get(A("body", rule)[1]) == 0
        nokind = all(has(st, k) == 0 for k, _, _ in NAMES.values())
        other = variant_is(F, st, body, EX, "BlockExpr") is False or variant_is(F, st, alt, EX, "SeqExpr") is False
        S.ok(w, "gives up silently only on what is no operator rule", noname or noattr or nobody or nokind or other, "silent", "answers nothing about an operator rule without reporting a problem")
    for k in NAMES: S.rep.ok("C20", "%s: %s is possible" % (w, k), k in kinds, "%s:never:%s" % (w, k), "a rule is never taken for a %s" % k)
    S.done(b, w, asserts=False, panics=True)
    S.ctx.count("outcomes_compared", len(outs))


def C_some(e, v): return e.fld(v, 0, "0", "Some", OPTION)


# ------------------------------------------------------------------ queries that look for offenders
ABSENT = {"insert": (TRUE, FALSE), "contains": (FALSE, TRUE), "contains_key": (FALSE, TRUE)}


class TableCk(AnCk):
    """hash tables are unknown; what they say about the key of the element at hand is remembered"""
    keyof = None

    def intercept(self, eng, st, name, args, call):
        m = call["method"]
        if name.startswith(("std::collections::hash::", "alloc::collections::btree::")) and m in ("insert", "contains", "contains_key", "get", "entry", "get_mut") and len(args) > 1 and not name.startswith("<"):
            kind = name.split("::")[-2]
            if kind in ("HashMap", "HashSet", "BTreeMap", "BTreeSet"):
                k = self.strof(eng, st, val(eng, st, args[1]))
                mine = self.keyof is not None and self.about(eng, st, k)
                outs = []
                tag = "store" if m in ("insert", "entry") else "look"
                for there in (False, True):
                    s = st.copy()
                    if m == "contains" or m == "contains_key": r = TRUE if there else FALSE
                    elif m == "insert" and kind.endswith("Set"): r = FALSE if there else TRUE
                    elif m == "insert": r = some(eng.fresh("old")) if there else NONE
                    elif m in ("get", "get_mut"): r = some(("rv", eng.app("found", k))) if there else NONE
                    else: r = ("adt", ENTRY if kind == "HashMap" else BENTRY, self.entry(eng, kind, there), (eng.app("slot", k),))
                    if mine: self.said(eng, s, there, tag)
                    outs.append((s, r))
                return outs
        if "Entry" in name and name.startswith(("std::collections::hash::", "alloc::collections::btree::")) and m == "insert":
            self.stored(eng, st, self.strof(eng, st, args[0]), args[1])
            return [(st, eng.fresh("slot"))]
        return AnCk.intercept(self, eng, st, name, args, call)

    def entry(self, eng, kind, there):
        a = eng.F.adts.get(ENTRY if kind == "HashMap" else BENTRY)
        n = "Occupied" if there else "Vacant"
        if a: return vidx(eng.F, ENTRY if kind == "HashMap" else BENTRY, n)
        return {"HashMap": {"Occupied": 0, "Vacant": 1}, "BTreeMap": {"Vacant": 0, "Occupied": 1}}[kind][n]

    def about(self, eng, st, k):
        c = self.g(st, "cur")
        return c is not None and c[0] == "adt" and c[2] == 1 and self.keyof(eng, st, c[3][0], k)

    def said(self, eng, st, there, tag):
        """the table knows (or does not know) the key of the element at hand"""
        if not there: self.settled(eng, st)

    def stored(self, eng, st, slot, v): pass


ENTRY = "std::collections::hash::map::Entry"
BENTRY = "alloc::collections::btree::map::entry::Entry"


class UsedCk(TableCk):
    """rules are counted as used only if something refers to them"""
    S = None
    sources = None

    def intercept(self, eng, st, name, args, call):
        if call["method"] == "collect" and call["trait"] == "core::iter::traits::iterator::Iterator" and "Set<" in call["dty"]["s"]:
            from builtins_rs import it_next
            s = st.copy()
            s.mem[("G", "it")] = args[0]
            q, self.scan = self.scan, set()
            outs = it_next(eng, s, ("ref", ("G", "it"), ()), call)
            self.scan = q
            if outs is None: raise CheckError("cannot follow what is collected")
            for o, v in outs:
                if feasible(o) and not eng.quiet and opt(o, v)[0]: self.use(eng, o, v[3][0] if v[0] == "adt" else C_some(eng, v))
            return [(st, eng.app("collected"))]
        if call["method"] == "insert" and name.startswith("std::collections::hash::set") and not eng.quiet: self.use(eng, st, self.strof(eng, st, val(eng, st, args[1])))
        return TableCk.intercept(self, eng, st, name, args, call)

    def use(self, eng, st, x):
        x = self.strof(eng, st, x)
        why = None
        el = eng.struct(x) if x[0] == "s" else None
        if el and el[0] == "elem" and sapp(eng, el[1])[0] == "syn_rules" and eqn(eng, st, el[2], const(0)): why = "first"
        for q, k, n in (("ResolveRefExpr", REFKIND, "RuleReference"), ("ResolveCall", CK, "RuleCall")):
            if el and el[0] == "f" and el[1] == n and el[2] == "0": why = q
        (self.sources if why else self.wrong).add(why or eng.show(x)[:80])


def scan_query(S, module, name, w, lst, keyof, none=None, absent=True, key=(), cls=TableCk):
    """every element of the list is unobjectionable or reported"""
    b = Bench(S.F, S.M, cls(S.F))
    b.ck.sources, b.ck.wrong = set(), set()
    b.eng.unroll = True
    b.k = b.ck
    e, ck = b.eng, b.ck
    b.fn = S.F.fn(Q + module + "::execute")
    b.me = ("adt", Q + name, 0, tuple(e.fresh("key") for _ in range(key))) if key else ("adt", Q + name, 0, ())
    l = lst(e, b)
    ck.scan = {l}
    ck.order = [l]
    ck.listspecs({l: (none or (lambda eng, st, el: True), None, lambda item: False)})
    ck.image = None
    ck.keyof = keyof
    if not absent:
        def said(eng, st, there, tag):
            if there: ck.settled(eng, st)
        ck.said = said
    outs = S.go(b)
    S.ok(w, "has an outcome", bool(outs), "outs", "never returns")
    S.ok(w, "can report", any(ck.reported(s) for s, _ in outs), "mute", "never reports anything")
    looked = 0
    for st, v in outs:
        ck.resolve(e, st)
        k = ck.g(st, "k")
        if k is None or ck.ofs(st) != l: continue
        looked += 1
        S.ok(w, "looks at every element", eqn(e, st, k, num(e.seqlen(l))), "every", "does not look at every element")
        S.ok(w, "reports every offender", eqn(e, st, ck.g(st, "r"), k) and ck.g(st, "skipped") is None, "offender", "may pass over an element that should be reported")
    S.ok(w, "looks at the list", looked > 0, "list", "does not look at the elements at all")
    S.done(b, w, asserts=False, panics=True)
    S.ctx.count("outcomes_compared", len(outs))
    return b, outs


def offenders(S):
    F = S.F
    file = lambda e, b: e.app("file", e.fresh("db"))

    def rules(e, b):
        ck = b.ck
        ck.calls[DB + "::file"] = lambda ck, eng, st, a, call: [(st, eng.app("ast"))]
        return e.app("list:" + S.acc("FallFile", "syn_rules"), e.app("ast"))

    def lexrules(e, b):
        b.ck.calls[DB + "::file"] = lambda ck, eng, st, a, call: [(st, eng.app("ast"))]
        return e.app("list:" + S.acc("TokenizerDef", "lex_rules"), C_some(e, e.app(S.acc("FallFile", "tokenizer_def"), e.app("ast"))))
    ident = lambda e, el: e.app(S.acc("SynRule", "name_ident"), el)
    noname = lambda eng, st, el: False if st.vars.get(ident(eng, el)[1]) == 0 else True
    scan_query(S, "all_lex_rules", "AllLexRules", "duplicate tokens", lexrules, lambda eng, st, el, k: k == eng.app(S.acc("LexRule", "node_type"), el))
    rule_name = lambda eng, st, el, k: k in (eng.app("ntext", C_some(eng, ident(eng, el))), C_some(eng, eng.app(S.acc("SynRule", "name"), el)))
    scan_query(S, "all_syn_rules", "AllSynRules", "duplicate rules", rules, rule_name, none=noname)
    b, _ = scan_query(S, "unused_rules", "UnusedRules", "unused rules", rules, lambda eng, st, el, k: k == el, none=noname, absent=False, cls=UsedCk)
    S.ok("unused rules", "only rules that are referred to count as used", not b.ck.wrong, "used", lambda: "counts a rule as used that nothing refers to")
    S.ok("unused rules", "knows which rules are used", bool(b.ck.sources), "sources", "never finds out which rules are used")


class CtxCk(TableCk):
    """the table of contexts: what each call adds to it, and what becomes of its entries"""
    def __init__(self, F):
        TableCk.__init__(self, F)
        self.visits = []
        self.runs = []
        self.collected = []

    def intercept(self, eng, st, name, args, call):
        if name == VIS + "VisitorBuilder::visit":
            self.visits.append((tyname(call["targs"][-2]).split("::")[-1], args[1]))
            return [(st, args[0])]
        if name == VIS + "visitor": return [(st, args[0])]
        if name.startswith(VIS + "process_subtree"):
            for t, clo in self.visits:
                x = eng.fresh("call")
                s = st.copy()
                s.mem[("G", "table")] = eng.fresh("table")
                for o, _ in eng.call_closure(s, clo, [x, ("ref", ("G", "table"), ())], call):
                    if feasible(o): self.runs.append((t, x, val(eng, st, args[0]), o))
            return [(st, eng.app("table"))]
        if name.startswith("alloc::collections::btree::map::BTreeMap::") and call["method"] in ("iter", "into_iter", "iter_mut") or name.startswith("<") and "btree::map::BTreeMap<" in name and call["method"] == "into_iter":
            return [(st, self.items(eng, st, eng.app("moved" if "IntoIter<" in call["dty"]["s"] or "IntoKeys<" in call["dty"]["s"] else "entries")))]
        if name.startswith("alloc::collections::btree::map::BTreeMap::") and call["method"] in ("keys", "into_keys"): return [(st, self.items(eng, st, eng.app("keys")))]
        if call["method"] == "collect" and call["trait"] == "core::iter::traits::iterator::Iterator":
            from builtins_rs import it_next
            s = st.copy()
            s.mem[("G", "it")] = args[0]
            outs = it_next(eng, s, ("ref", ("G", "it"), ()), call)
            if outs is None: raise CheckError("cannot follow the list of contexts")
            q, self.scan = self.scan, set()
            self.collected.append([(o, v) for o, v in outs if feasible(o)])
            self.scan = q
            return [(st, eng.app("collected", const(len(self.collected))))]
        return TableCk.intercept(self, eng, st, name, args, call)

    def stored(self, eng, st, slot, v): self.s(st, "put", MON(1, slot, eng.snap(st, v)))

    def said(self, eng, st, there, tag): pass


def contexts(S):
    F = S.F
    w = "contexts of the file"
    b = Bench(F, S.M, CtxCk(F))
    b.eng.unroll = True
    b.k = b.ck
    e, ck = b.eng, b.ck
    b.fn = F.fn(Q + "all_context_ids::execute")
    b.me = ("adt", Q + "AllContexts", 0, ())
    ck.calls[DB + "::file"] = lambda ck, eng, st, a, call: [(st, eng.app("ast"))]
    ck.keyof = lambda eng, st, el, k: False
    l = e.app("entries")
    value = lambda el: e.fld(el, 1, "1")

    def bad(eng, st, el):
        k = st.vars.get(value(el)[1])
        v = eng.load(st, value(el)) if k is None else None
        if v is not None and v[0] == "s": k = st.vars.get(v[1])
        return False if k == 0 else True
    ck.listspecs({l: (bad, None, lambda item: False)})
    ck.image = None
    outs = S.go(b)
    S.ok(w, "goes through the calls", bool(ck.runs) and {t for t, *_ in ck.runs} == {"CallExpr"}, "calls", "does not go through the calls of the file")
    n = 0
    for t, x, root, st in ck.runs:
        S.ok(w, "goes through the whole file", root == e.app("node", e.app("ast")), "root", "does not go through the whole file")
        name = e.app(S.acc("CallExpr", "context_name"), x)
        k = st.vars.get(name[1])
        put = ck.g(st, "put")
        if k == 1:
            n += 1
            good = put is not None and put[3][0] == e.app("slot", C_some(e, name))
            S.ok(w, "every context is kept", good, "kept", "a context may be missing from the list of contexts")
            S.rep.ok("C20", w + ": every context is numbered", good, w + ":kept", "a context may be missing from the list of contexts")
        else: S.ok(w, "nothing else is kept", k == 0 and put is None, "else", "keeps a context although the call has none")
    S.ok(w, "keeps contexts", n > 0, "none", "keeps no context")
    S.ok(w, "can report", any(ck.reported(s) for s, _ in outs), "mute", "never reports a context that is used only once")
    for st, v in outs:
        ck.resolve(e, st)
        k = ck.g(st, "k")
        if k is None: S.ok(w, "looks at the contexts", False, "list", "does not look at the contexts"); continue
        S.ok(w, "reports every context used only once", eqn(e, st, k, num(e.seqlen(l))) and eqn(e, st, ck.g(st, "r"), k) and ck.g(st, "skipped") is None, "offender", "may pass over a context that is used only once")
    for run in ck.collected:
        for st, v in run:
            is_some, x = opt(st, v)
            if is_some:
                S.rep.ok("C20", w + ": all of them are numbered in order", any(x == e.fld(e.index(st, y, const(0)), 0, "0") for y in (l, e.app("moved"))) or x == e.index(st, e.app("keys"), const(0)), w + ":order", "the list of contexts is not that of all contexts in order")
    S.done(b, w, asserts=False, panics=True)
    S.ctx.count("outcomes_compared", len(outs) + len(ck.runs))


class DueCk(TableCk):
    """what is looked up and not found has to be reported at once"""
    def said(self, eng, st, there, tag): pass

    def intercept(self, eng, st, name, args, call):
        outs = TableCk.intercept(self, eng, st, name, args, call)
        if outs and call["method"] == "get" and name.startswith("std::collections::hash::map::HashMap"):
            for s, v in outs:
                if v == NONE: self.s(s, "due", MON(1))
        return outs

    def report(self, eng, st, severity, node, msg):
        self.s(st, "reported", MON(1))
        self.s(st, "due", MON(0))

    def on_result(self, eng, call, args, outs):
        if call["method"] != "next": return
        for s, v in outs:
            if self.g(s, "due") == MON(1): self.note(eng, "silent", "may pass over a name that is not found without reporting it")


def traits(S):
    F = S.F
    w = "traits of a node"
    b = Bench(F, S.M, DueCk(F))
    b.eng.unroll = True
    b.k = b.ck
    e, ck = b.eng, b.ck
    b.fn = F.fn(Q + "ast_node_traits::execute")
    b.me = ("adt", Q + "AstNodeTraits", 0, (e.fresh("node"),))
    outs = S.go(b)
    S.ok(w, "can report", any(ck.reported(s) for s, _ in outs), "mute", "never reports an unknown trait")
    for st, v in outs: S.ok(w, "reports every unknown name", ck.g(st, "due") != MON(1), "silent", "may pass over a name that is not found without reporting it")
    S.done(b, w, asserts=False, panics=True)
    S.ctx.count("outcomes_compared", len(outs))


def analyse(F, M, rep, ctx):
    S = An(F, M, rep, ctx)
    driver(S)
    sink(S)
    resolve_ref(S)
    pratt(S)
    offenders(S)
    contexts(S)
    traits(S)
