"""C22: an editor action is offered exactly when applying it yields an edit: two-run path equivalence over every action
found in the tables of actions, and the dispatch of both editors against what the tables say."""
from ast_layer import *
from rules_text import Bench, fidx, vidx
from rules_search import Suite, opt, strip_ty, RANGE
from rules_accessors import syntaxes, wraps, kinds_of, AcCk
from callgraph import Graph
from absint import *

RES = "fall_editor::actions::ActionResult"
EFI = "fall_editor::EditorFileImpl"
FE = "fall_tree::edit::FileEdit"
SYNS = ("lang_fall_syntax::", "<lang_fall_syntax::", "lang_rust_syntax::", "<lang_rust_syntax::")
PRINT = ("std::io::stdio::_print", "std::io::stdio::_eprint")


class ActCk(AstCk):
    """actions of the tables are functions of what they are given; edits are opaque"""
    def __init__(self, S):
        AstCk.__init__(self, SYNS)
        self.S = S
        self.entries = {}        # path -> label, when calls of actions are not followed
        self.asked = []
        self.lost = []
        self.kin = {}
        self.inst = []           # what the generic functions being run are instantiated with

    def targ(self, t):
        x = AstCk.targ(self, t)
        return x + "@" + self.inst[-1] if t["k"] == "param" and self.inst else x

    def intercept(self, eng, st, name, args, call):
        if name in self.entries:
            a = [self.strof(eng, st, val(eng, st, x)) for x in args]
            if len(a) == 2 and a[1][0] == "tup": a = [a[0]] + list(a[1][1])
            if a and a[0][0] == "clo": a = a[1:]
            outs = []
            for s2, b in eng.fork(st, a[-1]) if a[-1] not in (TRUE, FALSE) else [(st, a[-1] == TRUE)]:
                t = eng.app("action:" + name, *a[:-1])
                self.asked.append((name, tuple(a[:-1]), b))
                # (that the answer does not depend on the flag is decided for each action by itself)
                for s3, some_ in eng.fork(s2, t): outs.append((s3, some(("adt", RES, vidx(eng.F, RES, "Applied" if b else "Available"), (eng.app("editof", t),) if b else ())) if some_ else NONE))
            return outs
        if name.startswith((FE + "::", "fall_tree::edit::")) and call["method"] != "clone" and "{closure" not in name:
            if call["method"] == "into_text_edit": return [(st, eng.app("edit", val(eng, st, args[0])))]
            if call["method"] == "new": return [(st, eng.app("edits", eng.snap(st, args[0])))]
            if name.startswith(FE): return [(st, UNIT)]
        if name == "fall_tree::node::File::text": return [(st, eng.app("ftext", eng.snap(st, args[0])))]
        if name == "fall_text::text::Text::slice":
            r = self.slice(eng, st, args)
            if r is not None: return r
        if name.startswith("fall_tree::search::ast::") and call["method"] == "ancestor_exn":
            self.ancestor(eng, st, name, args, call)
        r = AstCk.intercept(self, eng, st, name, args, call)
        if r is None and call["rkind"] == "item" and any(t["k"] in ("adt", "param") for t in call["targs"]) and name in eng.F.fns and name not in eng.F.dups and eng.F.fns[name].kind == "fn" and name not in [f.path for f in eng.stack]:
            self.inst.append("(" + ",".join(self.targ(t) for t in call["targs"]) + ")")
            try: return eng.call_fn(st, eng.F.fns[name], args, call)
            finally: self.inst.pop()
        if r is not None and name.startswith(SYNS) and call["dty"]["s"].startswith("core::option::Option") and len(r) == 1 and r[0][1][0] == "s" and self.S.promised(name, call):
            # the grammar guarantees it
            st2, v = r[0]
            i = v[1]
            if st2.vars.get(i) is None: st2.vars[i] = 1
        return r

    def rangeof(self, eng, st, n):
        """children of one node lie one after the other (C02)"""
        r = AstCk.rangeof(self, eng, st, n)
        x = eng.struct(n) if n[0] == "s" else None
        y = eng.struct(x[1]) if x and x[0] == "elem" and x[1][0] == "s" else None
        if y and y[0] == "app" and y[1] == "children":
            for m, j in self.kin.get(x[1], {}).items():
                for a, i, b, k in ((n, x[2], m, j), (m, j, n, x[2])):
                    if a != b and eng.holds(st, L.shift(L.add(aff(k), aff(i), -1), -1)):
                        eng.addfact(st, L.add(aff(eng.app("nstart", b)), aff(eng.app("nend", a)), -1))
            self.kin.setdefault(x[1], {})[n] = x[2]
        return r

    def slice(self, eng, st, args):
        """a piece of the file between borders of nodes"""
        t, r = self.strof(eng, st, val(eng, st, args[0])), val(eng, st, args[1])
        x = eng.struct(t) if t[0] == "s" else None
        if not x or x[0] != "app" or x[1] not in ("ftext",): return None
        if r[0] != "adt" or r[1] != RANGE: return None
        for e in r[3]:
            y = eng.struct(num(aff(e))) if num(aff(e))[0] == "s" else None
            if not y or y[0] != "app" or y[1] not in ("nstart", "nend"): return None
        lo, hi = (r[3][fidx(eng.F, RANGE, k)] for k in ("start", "end"))
        if not eng.holds(st, L.add(aff(hi), aff(lo), -1)): return None
        return [(st, eng.app("piece", t, eng.snap(st, r)))]

    def ancestor(self, eng, st, name, args, call):
        """the node asked for must exist: its kind only occurs below the kind wanted"""
        n = self.strof(eng, st, val(eng, st, args[0]))
        want = [tyname(t) for t in call["targs"] if t["k"] == "adt"]
        good = False
        if len(want) == 1:
            syn = self.S.syn.get(want[0].split("::")[0])
            if syn is not None:
                T = self.S.kinds(want[0], syn)
                may = None
                for ty in self.S.W:
                    if ty.split("::")[0] == syn.crate and eng.decide(st, eng.app("is:" + ty.split("::")[-1], n)) is True:
                        k = self.S.kinds(ty, syn)
                        may = k if may is None else may & k
                if may is not None and len(T) == 1:
                    out = syn.g.outside(syn.idx[next(iter(T))])
                    good = not {syn.idx[k] for k in may} & out
        self.lost.append((want[0].split("::")[-1] if want else "?", good))


class Actions(Suite):
    def __init__(self, F, M, rep, ctx):
        Suite.__init__(self, F, M, rep, ctx, "C22")
        self.syn = syntaxes(F, M, ctx)
        self.W = wraps(F, M, ctx, None)
        self.memo = {}

    def kinds(self, ty, syn):
        if ty not in self.memo: self.memo[ty] = kinds_of(self.F, self.M, self.ctx, self.W[ty], syn.lang.kinds)
        return self.memo[ty]

    def promised(self, name, call):
        """does the optional accessor find its part in every node of the type it is asked of?"""
        ty = tyname(call["aty"][0]) if call["aty"] else None
        if ty not in self.W: return False
        syn = self.syn.get(ty.split("::")[0])
        fn = self.F.fns.get(name)
        if syn is None or fn is None or fn.argc != 1: return False
        key = (name, ty)
        if key not in self.memo:
            self.memo[key] = False
            K = {k for k in syn.lang.kinds if self.finds(fn, ty, k)}
            self.memo[key] = bool(K) and all(syn.guaranteed(T, K)[0] for T in self.kinds(ty, syn))
            self.ctx.count("optional parts looked up in the grammar")
        return self.memo[key]

    def finds(self, fn, ty, k):
        ck = AcCk(())
        ck.W = self.W
        ck.accept_ = lambda t: self.kinds(t, self.syn[t.split("::")[0]])
        b = Bench(self.F, self.M, ck)
        e = b.eng; e.unroll = True
        node = e.fresh("node")
        ck.node = node
        ck.kids = ((k, e.fresh("child")),)
        a = ("adt", ty, 0, (node,))
        outs = [(s, v) for s, v in e.run(fn, [b.cell(a) if fn.locals[1][0]["k"] == "ref" else a], b.st) if feasible(s)]
        self.ctx.account(e)
        return bool(outs) and not any(feasible(p[0]) for p in ck.panics) and all(opt(s, v)[0] is True for s, v in outs)

    def bench(self):
        b = Bench(self.F, self.M, ActCk(self))
        b.eng.unroll = True
        b.k = b.ck
        return b


# ------------------------------------------------------------------ the tables
def tables(S):
    """functions and closures listed in tables of actions: path -> label"""
    out = {}
    F = S.F
    for path, fn in sorted(F.fns.items()):
        t = fn.locals[0][0]["s"]
        if fn.kind in ("fn", "closure") or fn.argc or RES not in t or "fn(" not in t: continue
        b = S.bench()
        for st, v in b.eng.run(fn, [], b.st):
            for _ in range(3):
                if v[0] in ("ref", "rv"): v = b.eng.load(st, v)
            if v[0] not in ("arr", "tup", "seq"): raise CheckError("table of actions %s is not a list" % path)
            for x in v[1]:
                x = x[1] if v[0] == "seq" else x
                if x[0] != "tup" or len(x[1]) != 2 or x[1][0][0] != "str" or x[1][1][0] not in ("fn", "clo"): raise CheckError("table of actions %s has an entry that is not understood" % path)
                out[x[1][1][1]] = x[1][0][1]
        S.ctx.account(b.eng)
    if not out: raise CheckError("anchor missing: tables of actions")
    return out


# ------------------------------------------------------------------ each action
def conflict(eng, s1, s2):
    """can the two paths not be taken for the same file and selection?"""
    for m1, m2 in ((s1.bools, s2.bools), (s1.vars, s2.vars)):
        for k, v in m1.items():
            if m2.get(k, v) != v: return True
    return L.infeasible(frozenset(s1.facts) | frozenset(s2.facts))


def action(S, path, label):
    F = S.F
    w = "action %s" % label
    fn = F.fn(path)
    b = S.bench()
    e, ck = b.eng, b.ck
    flag = e.fresh("apply")
    n = fn.argc
    args = [e.fresh("a%d" % i) for i in range(n - 1)] + [flag]
    if fn.kind == "closure": args = [("clo", path, ())] + args[1:]
    outs = [(s, v) for s, v in e.run(fn, args, b.st) if feasible(s)]
    got = {}
    for st, v in outs:
        is_some, x = opt(st, v)
        S.ok(w, "answers", is_some is not None, "undecided", "answers neither with something nor with nothing")
        if is_some is None: continue
        ap = e.decide(st, flag)
        if is_some and ap is not False:
            x = ck.strof(e, st, x)
            S.ok(w, "applying it yields an edit", x[0] == "adt" and x[1] == RES and F.adts[RES]["variants"][x[2]]["name"] == "Applied", "noedit", "may claim to be available when it is to be applied")
        # a run that never looks at the flag is the same in both modes
        for m in ([ap] if ap is not None else [True, False]): got.setdefault((m, is_some), []).append((st, ap is None))
    for m in (True, False):
        S.ok(w, "can answer with something%s" % (", applied" if m else ""), (m, True) in got, "never", "never does anything")
    for m, what in ((False, "is not offered where applying it yields an edit"), (True, "is offered where applying it yields nothing")):
        bad = None
        for s1, same in got.get((m, False), ()):
            for s2, _ in () if same else got.get((not m, True), ()):
                S.ctx.count("pairs of paths")
                if not conflict(e, strip(s1, flag), strip(s2, flag)): bad = (s1, s2)
        S.ok(w, "availability and application agree (%s)" % ("None offered" if not m else "None applied"), bad is None, "agree:%s" % m, what)
    for t, good in ck.lost: S.ok(w, "stands inside a %s" % t, good, "ancestor:%s" % t, "takes for granted that there is an enclosing %s" % t)
    ps = [p for p in ck.panics if feasible(p[0])]
    S.ok(w, "does not fail", not ps, "panic", lambda: "%s may panic: %s in %s" % (w, ps[0][2], ps[0][3] if len(ps[0]) > 3 else ""))
    for (p, kind, c), good in ck.asserts.items(): S.ok(w, "in range", good, "assert:%s" % kind, "%s in %s is not proved" % (kind, p))
    S.ctx.account(e)
    S.ctx.count("actions")


def strip(st, flag):
    st = st.copy()
    st.bools = {k: v for k, v in st.bools.items() if k not in (flag, flag[1])}
    return st


# ------------------------------------------------------------------ dispatch
def method(S, i, name):
    """the function that implements a method of the editor's trait for one editor (or the default)"""
    for p in i["items"]:
        if p.split("::")[-1] == name:
            f = next((f for q, f in S.F.fns.items() if q == p or q == canon(p)), None)
            if f is None:
                f = next((f for q, f in S.F.fns.items() if f.name == name and f.impl_trait and canon(f.impl_trait) == EFI and q.startswith("<" + canon(i["self"]) + " as ")), None)
            if f is None: raise CheckError("anchor missing: %s of %s" % (name, i["self"]))
            return f, True
    return S.F.fn(EFI + "::" + name), False


def dispatch(S, entries):
    F = S.F
    impls = [i for i in F.impls if i["trait"] and canon(i["trait"]) == EFI]
    if not impls: raise CheckError("anchor missing: editors")
    for i in impls:
        who = canon(i["self"]).split("::")[-1]
        w = "editor %s" % who
        lf, l = method(S, i, "context_actions")
        af, a = method(S, i, "apply_context_action")
        b = S.bench()
        e, ck = b.eng, b.ck
        ck.entries = entries
        me, rng, name = e.fresh("file"), e.fresh("range"), e.fresh("id")
        base = b.st
        outs = [(s, v) for s, v in e.run(af, [me, rng, name], base.copy()) if feasible(s)]
        acts = {}            # name -> (action, arguments)
        applied = {}
        for path, args, ap in ck.asked:
            S.ok(w, "actions are applied when asked to", ap, "apply:flag", "asks whether an action is available instead of applying it")
        unknown = False
        for st, v in outs:
            k = ck.textof(e, st, name)
            is_some, x = opt(st, v)
            S.ok(w, "applying answers", is_some is not None, "apply:undecided", "answers neither with an edit nor with nothing")
            if is_some is None: continue
            done = [(p, a2) for p, a2, _ in dict.fromkeys(ck.asked) if e.decide(st, e.app("action:" + p, *a2)) is not None]
            if k is None:
                unknown = True
                S.ok(w, "an unknown name yields nothing", is_some is False and not done, "apply:unknown", "applies an action although no action has the name")
                continue
            S.ok(w, "a name means one action", len(done) == 1, "apply:one", "does not apply exactly one action for the name %s" % k)
            if len(done) != 1: continue
            S.ok(w, "a name always means the same action", acts.setdefault(k, done[0]) == done[0], "apply:same", "applies different actions for the name %s" % k)
            t = e.app("action:" + done[0][0], *done[0][1])
            S.ok(w, "what the action yields is returned", is_some == e.decide(st, t) and (not is_some or ck.strof(e, st, x) == e.app("editof", t)), "apply:result", "returns something other than what the action %s yields" % k)
            applied.setdefault(k, set()).add(is_some)
        S.ok(w, "names may be unknown", unknown, "apply:all", "takes every name for that of an action")
        for k, r in applied.items(): S.ok(w, "%s may or may not yield an edit" % k, r == {True, False}, "apply:both:%s" % k, "the action %s always or never yields an edit" % k)
        n = len(ck.asked)
        outs = [(s, v) for s, v in e.run(lf, [me, rng], base.copy()) if feasible(s)]
        for path, args, ap in ck.asked[n:]: S.ok(w, "asks whether actions are available", not ap, "list:flag", "applies an action when asked what is available")
        S.ok(w, "lists", bool(outs), "list:outs", "never returns a list")
        for st, v in outs:
            xs = val(e, st, v)
            items = [ck.strof(e, st, c[1]) if c[0] == "it" else None for c in e.seq(xs)] if xs[0] in ("seq", "arr") else [None]
            if not all(x and x[0] == "str" for x in items):
                S.ok(w, "lists names", False, "list:names", "lists something other than names of actions"); continue
            items = [x[1] for x in items]
            S.ok(w, "lists nothing twice", len(set(items)) == len(items), "list:twice", "lists a name twice")
            bad = None
            for k in sorted(set(acts) | set(items)):
                if k not in acts: bad = "lists %s, which cannot be applied" % k; continue
                t = e.decide(st, e.app("action:" + acts[k][0], *acts[k][1]))
                if t is None: bad = "does not ask %s whether it is available for the same file and selection that it is applied to" % k
                elif t != (k in items): bad = "lists %s although it is not available" % k if k in items else "does not list %s although it is available" % k
            S.ok(w, "lists what is available", bad is None, "list:" + (bad or ""), bad or "")
        ps = [p for p in ck.panics if feasible(p[0])]
        S.ok(w, "does not fail", not ps, "panic", lambda: "%s may panic: %s" % (w, ps[0][2]))
        S.ctx.account(e)
        S.ctx.count("editors")
        own = {p for p, _, _ in ck.asked}
        S.ctx.count("actions of editors", len(own))
        yield own
    for m in ("context_actions", "apply_context_action"):
        b = S.bench()
        fn = F.fn(EFI + "::" + m)
        for st, v in b.eng.run(fn, [b.eng.fresh("a%d" % j) for j in range(fn.argc)], b.st):
            xs = val(b.eng, st, v)
            S.ok("editors without actions", "%s answers with nothing" % m, opt(st, v)[0] is False or xs[0] in ("seq", "arr") and not b.eng.seq(xs), m, "have actions")
        S.ctx.account(b.eng)


def quiet(S, entries):
    """nothing is written to the console"""
    g = Graph(S.F)
    for p, label in sorted(entries.items()):
        r = g.reach([p])
        bad = sorted({q for q in r for f in g.bodies(q) for _, _, c in g.sites(f) if c is not None and canon(c["resolved"] or c["fn"]) in PRINT})
        S.ctx.count("functions reached", len(r))
        S.ok("action %s" % label, "prints nothing", not bad, "print", lambda: "action %s writes to the console in %s" % (label, ", ".join(bad)))


def analyse(F, M, rep, ctx):
    S = Actions(F, M, rep, ctx)
    entries = tables(S)
    used = set()
    for own in dispatch(S, entries): used |= own
    S.ok("tables of actions", "every action can be applied", used == set(entries), "unused", lambda: "an action cannot be applied: %s" % ", ".join(entries[p] for p in set(entries) - used))
    for p in sorted(entries): action(S, p, entries[p])
    quiet(S, entries)
