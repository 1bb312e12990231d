"""C16/C17: tree search, traversals, visitors and tree edits.  Nodes are opaque (what a node says about
itself is decided under C02): kind, range, parent and the list of children are functions of the node, with
the facts C02 gives (children tile their parent in order, a child's parent is the node that lists it)."""
from absint import *
from absint import OPTION
from facts import CheckError
from builtins_rs import val, madt, NONE, some
from rules_text import Bench, Rec, RANGE, fidx, implfn, vidx
import linear as L

NODE = "fall_tree::node::Node"
CHILDREN = "fall_tree::node::imp::NodeChildren"
SEARCH = "fall_tree::search::"
ANC = SEARCH + "Ancestors"
LEAF = SEARCH + "LeafAtOffset"
FUN = "core::ops::function::Fn"
MON = lambda k, *a: ("adt", "mon", k, tuple(a))


class NodeCk(Rec):
    """opaque nodes; scan(pred): children of `node` are looked at in order and passed over only if pred is False"""
    antiunify = True

    def __init__(self, rules=()):
        Rec.__init__(self)
        self.calls = {}          # function name -> handler(ck, eng, st, args, call) -> outs | None
        self.node = None
        self.pred = None
        self.bad = []
        self.tiling = False
        self.emits = False
        self.reject = None       # called when the child at hand is rejected
        self.accept = None       # collect accepted children in the ghost acc
        self.inv = None
        self.of = None           # the sequence scanned, if not the children of node

    # -- ghosts
    def g(self, st, k): return st.mem.get(("G", k))
    def s(self, st, k, v): st.mem[("G", k)] = v

    def begin(self, eng, st, node):
        self.node = node
        for k in ("k", "r"): self.s(st, k, const(0))
        self.s(st, "cur", MON(0))
        self.s(st, "cov", const(0))

    def seq(self, eng, n): return eng.app("children", n)

    def rangeof(self, eng, st, n):
        a, b = eng.app("nstart", n), eng.app("nend", n)
        eng.addfact(st, L.add(aff(b), aff(a), -1))
        v = [None, None]
        v[fidx(eng.F, RANGE, "start")], v[fidx(eng.F, RANGE, "end")] = a, b
        return ("adt", RANGE, 0, tuple(v))

    def parent_of(self, eng, n):
        x = eng.struct(n)
        if x and x[0] == "elem":
            y = eng.struct(x[1])
            if y and y[0] == "app" and y[1] == "children": return y[2]
        return None

    def intercept(self, eng, st, name, args, call):
        if name in self.calls and name.startswith("core::ops::function"): return self.calls[name](self, eng, st, args, call)
        a = [val(eng, st, x) for x in args] if args and (name.startswith(("fall_tree::node::", "<fall_tree::node::")) or name in self.calls) else args
        h = self.calls.get(name)
        if h is not None:
            r = h(self, eng, st, args, call)
            if r is not None: return r
        if name == NODE + "::ty": return [(st, eng.app("ty", a[0]))]
        if name == NODE + "::range": return [(st, self.rangeof(eng, st, a[0]))]
        if name == NODE + "::text": return [(st, eng.app("ntext", a[0]))]
        if name == NODE + "::file": return [(st, eng.app("nfile", a[0]))]
        if name == NODE + "::parent":
            p = self.parent_of(eng, a[0])
            if p is not None: return [(st, some(p))]
            return [(s2, some(eng.app("parent", a[0])) if b else NONE) for s2, b in eng.fork(st, eng.app("has_parent", a[0]))]
        if name == NODE + "::children":
            if self.node is not None and a[0] == self.node: self.begin(eng, st, self.node)
            return [(st, madt("VecIter", ("rv", self.seq(eng, a[0])), const(0)))]
        if call["method"] == "next" and strip_ty(name.split(" as ")[0].lstrip("<")) in (CHILDREN, ANC):
            t = eng.load(st, eng.deref(args[0])) if args[0][0] != "adt" else args[0]
            while t[0] in ("ref", "rv"): t = eng.load(st, t)
            if t[0] == "adt" and t[1].startswith("models::"):
                from builtins_rs import it_next
                outs = it_next(eng, st, args[0], call)
                if outs is not None: self.on_result(eng, call, args, outs)
                return outs
        if name == "core::slice::contains":
            xs, v = eng.load(st, args[0]), val(eng, st, args[1])
            if xs[0] in ("arr", "seq") and all(c[0] == "it" for c in eng.seq(xs)):
                outs, todo = [], [st]
                for c in eng.seq(xs):
                    nxt = []
                    for s in todo:
                        for s2, t in eng.fork(s, eng.cmp("Eq", val(eng, s, c[1]), v)): (outs if t else nxt).append((s2, TRUE) if t else s2)
                    todo = nxt
                return outs + [(s, FALSE) for s in todo]
        if name in ("<%s<'f> as core::cmp::PartialEq>::eq" % NODE, "<%s as core::cmp::PartialEq>::eq" % NODE): return [(st, eng.cmp("Eq", a[0], a[1]))]
        if name in ("<%s<'f> as core::cmp::PartialEq>::ne" % NODE, "<%s as core::cmp::PartialEq>::ne" % NODE): return [(st, eng.notv(eng.cmp("Eq", a[0], a[1])))]
        return None

    def is_child(self, eng, v):
        """index if v is a child of the scanned node"""
        x = eng.struct(v) if v[0] == "s" else None
        if x and x[0] == "elem" and self.node is not None and x[1] == (self.of or self.seq(eng, self.node)): return x[2]
        return None

    def note(self, eng, key, msg):
        if not eng.quiet and (key, msg) not in self.bad: self.bad.append((key, msg))

    def on_result(self, eng, call, args, outs):
        if call["method"] != "next" or self.node is None: return
        for st, v in outs:
            if v[0] != "adt" or v[1] != OPTION: continue
            if v[2] == 0:
                g = self.g(st, "k")
                if self.tiling and g is not None:
                    self.resolve(eng, st)
                    n = eng.seqlen(self.seq(eng, self.node))
                    if eqn(eng, st, num(n), g) and eng.holds(st, L.shift(n, -1)):
                        d = L.add(aff(eng.app("nend", self.node)), aff(self.g(st, "cov")), -1)
                        eng.addfact(st, d); eng.addfact(st, L.neg(d))
                continue
            k = self.is_child(eng, v[3][0])
            if k is None: continue
            self.taken(eng, st, v[3][0], k)

    def taken(self, eng, st, child, k):
        self.resolve(eng, st)
        g = self.g(st, "k")
        if g is None: return
        if not eqn(eng, st, k, g):
            if eqn(eng, st, num(L.shift(aff(k), 1)), g): return      # handed on by an adaptor
            self.note(eng, "order", "does not look at the children in order"); return
        if self.pred and not eqn(eng, st, self.g(st, "r"), g): self.note(eng, "skip", "passes over a child that it should have taken")
        self.s(st, "k", num(L.shift(aff(g), 1)))
        self.s(st, "cur", MON(1, child))
        if self.tiling:
            r = self.rangeof(eng, st, child)
            cs, ce = eng.app("nstart", child), eng.app("nend", child)
            cov = self.g(st, "cov")
            for q in (L.add(aff(cs), aff(cov), -1), L.add(aff(cov), aff(cs), -1), L.add(aff(eng.app("nend", self.node)), aff(ce), -1)): eng.addfact(st, q)
            self.s(st, "cov", ce)
        self.resolve(eng, st)

    def resolve(self, eng, st):
        """has the child at hand been rejected?"""
        c = self.g(st, "cur")
        if not self.pred or c is None or c[0] != "adt" or c[2] != 1: return
        d = self.pred(eng, st, c[3][0])
        if d is False:
            self.s(st, "r", self.g(st, "k"))
            self.s(st, "cur", MON(0))
            if self.reject: self.reject(eng, st, c[3][0])
        elif d is True and self.accept is not None:
            self.s(st, "r", self.g(st, "k"))
            self.s(st, "cur", MON(0))
            g = self.g(st, "acc") or MON(0)
            self.s(st, "acc", MON(g[2] + 1, *(g[3] + (c[3][0],))))
            self.s(st, "some", MON(0))

    def on_assume(self, eng, st, c, v): self.resolve(eng, st)

    def invariants(self, eng, st): return self.inv(eng, st) if self.inv else ()

    def on_push(self, eng, st, ref, item, fn):
        if self.emits: self.emit(eng, st, item)

    def emit(self, eng, st, item):
        """a child is handed out"""
        self.resolve(eng, st)
        c = self.g(st, "cur")
        if c is None or c[0] != "adt" or c[2] != 1 or not eqn(eng, st, item, c[3][0]):
            self.note(eng, "emit", "hands out something other than the child at hand, or a child that does not qualify"); return
        if self.pred(eng, st, c[3][0]) is not True: self.note(eng, "emit", "hands out a child that need not qualify")
        self.s(st, "r", self.g(st, "k"))
        self.s(st, "cur", MON(0))

    def nchildren(self, eng, n): return num(eng.seqlen(self.of or self.seq(eng, n)))


def eqn(eng, st, a, b):
    if a is None or b is None: return False
    d = L.add(aff(a), aff(b), -1)
    return eng.holds(st, d) and eng.holds(st, L.neg(d))


def feasible(st): return not L.infeasible(frozenset(st.facts))


class Suite:
    def __init__(self, F, M, rep, ctx, prop):
        self.F, self.M, self.rep, self.ctx, self.prop = F, M, rep, ctx, prop

    def bench(self, **kw):
        b = Bench(self.F, self.M, NodeCk())
        b.node = b.eng.fresh("node")
        b.k = b.ck
        for k, v in kw.items(): setattr(b.ck, k, v)

        def run_rec(fn, vals):
            """run fn itself although calls of it are intercepted"""
            return b.eng.run(fn, b.args(fn, vals), b.st)
        b.run_rec = run_rec
        return b

    def ok(self, fn, what, cond, key, msg, prop=None):
        return self.rep.ok(prop or self.prop, "%s: %s" % (fn, what), cond, "%s:%s" % (fn, key), msg if callable(msg) else "%s %s" % (fn, msg))

    def done(self, b, fn, panics=False, asserts=True):
        for key, msg in b.ck.bad: self.ok(fn, msg, False, key, msg)
        if not panics:
            ps = [p for p in b.ck.panics if feasible(p[0])]
            self.ok(fn, "does not panic", not ps, "panic", "may panic: %s" % (ps[0][2] if ps else ""))
        if asserts:
            for (p, kind, c), good in b.ck.asserts.items(): self.ok(fn, "in range", good, "assert:%s" % kind, "%s in %s is not proved" % (kind, p))
        self.ctx.account(b.eng)


def opt(st, v):
    """(is_some, payload) of an option value on this path; None if undetermined"""
    if v[0] == "adt": return (v[2] == 1, v[3][0] if v[2] == 1 else None)
    if v[0] == "s":
        k = st.vars.get(v[1])
        if k == 1: return (True, None)
        if k == 0: return (False, None)
    return (None, None)


# ------------------------------------------------------------------ child queries
def is_ty(want):
    return lambda eng, st, c: eng.decide(st, eng.cmp("Eq", eng.app("ty", c), want))


def first_child(S, b, fn, outs, conv=lambda b, st, v: v):
    """outcomes of a function that finds the first child for which the scan's predicate holds"""
    e, ck = b.eng, b.ck
    S.ok(fn, "has an outcome of each kind", len(outs) >= 2, "outs", "does not both find and fail to find")
    for st, v in outs:
        ck.resolve(e, st)
        some_, x = opt(st, v)
        if some_:
            x = conv(b, st, x)
            c = ck.g(st, "cur")
            S.ok(fn, "returns the child it accepted", c[0] == "adt" and c[2] == 1 and x == c[3][0] and ck.pred(e, st, x) is True, "found", "returns something other than the first child that qualifies")
        elif some_ is False:
            S.ok(fn, "gives up after the last child", eqn(e, st, ck.g(st, "k"), ck.nchildren(e, b.node)) and eqn(e, st, ck.g(st, "r"), ck.g(st, "k")), "none", "gives up although a child may qualify")
        else: S.ok(fn, "decided", False, "undecided", "returns something that is neither a child nor nothing")


def queries(S):
    F = S.F
    # child_of_type
    b = S.bench()
    ty = b.eng.fresh("ty")
    b.ck.pred = is_ty(ty); b.ck.begin(b.eng, b.st, b.node)
    outs = b.run(F.fn(SEARCH + "child_of_type"), [b.node, ty])
    first_child(S, b, "child_of_type", outs); S.done(b, "child_of_type")
    # children_of_type: the iterator it returns
    b = S.bench()
    ty = b.eng.fresh("ty")
    b.ck.pred = is_ty(ty); b.ck.begin(b.eng, b.st, b.node)
    outs = drain(S, b, F.fn(SEARCH + "children_of_type"), [b.node, ty], "children_of_type")
    all_children(S, b, "children_of_type", outs); S.done(b, "children_of_type")


def drain(S, b, fn, args, label):
    """run fn, then pull every item of the iterator it returns into a vector"""
    outs = []
    b.ck.emits = True
    for st, v in b.run(fn, args):
        v = val(b.eng, st, v)
        outs += b.eng.run(S.M.fns["models::it_collect_vec"], [v], st)
    S.ok(label, "returns", bool(outs), "outs", "never returns")
    return outs


def all_children(S, b, fn, outs, conv=lambda b, st, v: v):
    """every child that qualifies was handed out once, in order (checked at each push), none was skipped"""
    e, ck = b.eng, b.ck
    for st, v in outs:
        ck.resolve(e, st)
        S.ok(fn, "all children are looked at", eqn(e, st, ck.g(st, "k"), ck.nchildren(e, b.node)) and eqn(e, st, ck.g(st, "r"), ck.g(st, "k")), "end", "leaves out a child that qualifies")


# ------------------------------------------------------------------ subtree
def subtree(S):
    F = S.F
    name = SEARCH + "subtree"
    b = S.bench()
    e, ck = b.eng, b.ck
    ck.begin(e, b.st, b.node)
    ck.s(b.st, "j", const(0)); ck.s(b.st, "self", const(0))
    top = {"first": True}

    def rec(ck, eng, st, args, call):
        if top["first"]: top["first"] = False; return None
        n = val(eng, st, args[0])
        return [(st, madt("VecIter", ("rv", eng.app("subtree", n)), const(0)))]
    ck.calls[name] = rec
    top["first"] = False

    def full(eng, st):
        """the subtree of the child at hand has been handed out"""
        c = ck.g(st, "cur")
        if c[2] == 0: return eqn(eng, st, ck.g(st, "j"), const(0))
        return eng.holds(st, L.add(aff(ck.g(st, "j")), eng.seqlen(eng.app("subtree", c[3][0])), -1))

    class Ck(NodeCk): pass
    base_taken = ck.taken

    def taken(eng, st, child, k):
        if eqn(eng, st, k, ck.g(st, "k")):
            if not full(eng, st): ck.note(eng, "skip", "leaves out part of the subtree of a child")
            base_taken(eng, st, child, k)
            ck.s(st, "j", const(0))
        else: base_taken(eng, st, child, k)
    ck.taken = taken

    def emit(eng, st, item):
        x = eng.struct(item) if item[0] == "s" else None
        c = ck.g(st, "cur")
        if x and x[0] == "elem" and c[2] == 1 and x[1] == eng.app("subtree", c[3][0]) and eqn(eng, st, x[2], ck.g(st, "j")) and eqn(eng, st, ck.g(st, "self"), const(0)):
            ck.s(st, "j", num(L.shift(aff(ck.g(st, "j")), 1)))
        elif item == b.node and eqn(eng, st, ck.g(st, "self"), const(0)):
            if not (eqn(eng, st, ck.g(st, "k"), ck.nchildren(eng, b.node)) and full(eng, st)): ck.note(eng, "early", "hands out the node before all of its children's subtrees")
            ck.s(st, "self", const(1)); ck.s(st, "cur", MON(0)); ck.s(st, "j", const(0))
        else: ck.note(eng, "emit", "hands out something other than the next node of the subtree")
    ck.emit = emit
    outs = drain(S, b, F.fn(name), [b.node], "subtree")
    for st, v in outs:
        S.ok("subtree", "all nodes are handed out", eqn(e, st, ck.g(st, "self"), const(1)) and eqn(e, st, ck.g(st, "k"), ck.nchildren(e, b.node)) and full(e, st), "end", "does not hand out the whole subtree")
    S.done(b, "subtree")


# ------------------------------------------------------------------ recursive traversals
def recursive(S, public, go, order, label):
    """order 'post': every child's subtree in order, then the node; 'pre': the node first"""
    F = S.F
    names = {p for p in (public, go) if p}
    for fn in sorted(names):
        if fn not in F.fns: continue
        b = S.bench()
        e, ck = b.eng, b.ck
        ck.begin(e, b.st, b.node)
        for k in ("done", "self", "whole"): ck.s(b.st, k, const(0))
        f = e.fresh("f")

        def rec(ck, eng, st, args, call, f=f, b=b):
            n = val(eng, st, args[0])
            if eng.load(st, args[1]) != f and args[1] != f and val(eng, st, args[1]) != f: ck.note(eng, "f", "passes on another callback")
            if n == b.node: ck.s(st, "whole", num(L.shift(aff(ck.g(st, "whole")), 1))); return [(st, UNIT)]
            k = ck.is_child(eng, n)
            c = ck.g(st, "done")
            if k is None or not eqn(eng, st, k, c): ck.note(eng, "order", "does not walk the children in order, each once")
            if order == "pre" and not eqn(eng, st, ck.g(st, "self"), const(1)): ck.note(eng, "pre", "walks a child before its parent")
            if order == "post" and not eqn(eng, st, ck.g(st, "self"), const(0)): ck.note(eng, "post", "walks a child after its parent")
            ck.s(st, "done", num(L.shift(aff(c), 1)))
            return [(st, UNIT)]
        for x in names: ck.calls[x] = rec

        def visit(ck, eng, st, args, call, f=f, b=b):
            if closure(eng, st, args[0]): return None
            x = args[1] if len(args) > 1 else None
            x = x[3][0] if x and x[0] == "adt" and x[3] else (x[1][0] if x and x[0] == "tup" and x[1] else x)
            x = val(eng, st, x) if x else None
            if x != b.node or not eqn(eng, st, ck.g(st, "self"), const(0)): ck.note(eng, "visit", "calls back for another node, or more than once")
            if order == "post" and not eqn(eng, st, ck.g(st, "done"), ck.nchildren(eng, b.node)): ck.note(eng, "post", "calls back for a node before all of its children")
            if order == "pre" and not eqn(eng, st, ck.g(st, "done"), const(0)): ck.note(eng, "pre", "calls back for a node after a child")
            ck.s(st, "self", const(1))
            return [(st, UNIT)]
        for m in ("FnMut::call_mut", "FnOnce::call_once", "Fn::call"): ck.calls["core::ops::function::" + m] = visit
        outs = b.run_rec(F.fn(fn), [b.node, f])
        lab = label + ("" if fn == public else "::go")
        S.ok(lab, "returns", bool(outs), "outs", "never returns")
        for st, v in outs:
            whole = eqn(e, st, ck.g(st, "whole"), const(1)) and eqn(e, st, ck.g(st, "done"), const(0)) and eqn(e, st, ck.g(st, "self"), const(0))
            own = eqn(e, st, ck.g(st, "whole"), const(0)) and eqn(e, st, ck.g(st, "done"), ck.nchildren(e, b.node)) and eqn(e, st, ck.g(st, "self"), const(1))
            S.ok(lab, "every node once", whole if fn == public and go in F.fns and whole else own, "end", "leaves out a node or a child")
        S.done(b, lab)


# ------------------------------------------------------------------ ancestors
def ancestors(S):
    F = S.F
    nx = implfn(F, ANC, "Iterator", "next")
    b = S.bench()
    e = b.eng
    n = b.node
    first = b.run(F.fn(SEARCH + "ancestors"), [n])
    S.ok("ancestors", "one outcome", len(first) == 1, "outs", "does not simply start at the node")
    for st, it in first:
        c = e.fresh("it")
        st.mem[("D", c[1])] = it
        for st2, v in e.run(nx, [c], st):
            k, x = opt(st2, v)
            S.ok("ancestors", "starts at the node", k and x == n, "first", "does not begin with the node itself")
            after = st2.mem[("D", c[1])]
            hp = e.decide(st2, e.app("has_parent", n))
            outs2 = e.run(F.fn(SEARCH + "ancestors"), [e.app("parent", n)], st2.copy())
            if hp is True or hp is None:
                s2 = st2.copy()
                S.ok("ancestors", "goes on with the parent", hp is not None and all(it2 == after for _, it2 in outs2), "step", "does not go on with the parent")
            else:
                S.ok("ancestors", "goes on with the parent", True, "", "")
                for st3, w in e.run(nx, [c], st2.copy()):
                    S.ok("ancestors", "ends after the root", opt(st3, w)[0] is False, "last", "goes on after the root")
                    for st4, w in e.run(nx, [c], st3.copy()):
                        S.ok("ancestors", "stays at the end", opt(st4, w)[0] is False, "last", "goes on after the root")
    S.done(b, "ancestors")


def is_leaf(S):
    b = S.bench()
    e = b.eng
    outs = b.run(S.F.fn(SEARCH + "is_leaf"), [b.node])
    n = b.ck.nchildren(e, b.node)
    s, t = e.app("nstart", b.node), e.app("nend", b.node)
    S.ok("is_leaf", "means no children and some text", b.truth(("and", ("le", n, const(0)), ("lt", s, t))), "value", "is not 'no children and some text'")
    S.done(b, "is_leaf")


def leafval(S, kind, *a): return ("adt", LEAF, vidx(S.F, LEAF, kind), tuple(a))


def leaf_at(S):
    F = S.F
    for meth, want in (("right_biased", 1), ("left_biased", 0)):
        fn = F.fn(LEAF + "::" + meth)
        for kind, arity in (("None", 0), ("Single", 1), ("Between", 2)):
            b = S.bench()
            xs = [b.eng.fresh("n%d" % i) for i in range(arity)]
            for st, v in b.run(fn, [leafval(S, kind, *xs)]):
                k, x = opt(st, v)
                S.ok("LeafAtOffset::" + meth, "of %s" % kind, k is (arity > 0) and (arity == 0 or x == xs[min(want, arity - 1)]), "value", "does not give the leaf on its side")
            S.done(b, "LeafAtOffset::" + meth)
    nx = implfn(F, LEAF, "Iterator", "next")
    for kind, arity in (("None", 0), ("Single", 1), ("Between", 2)):
        b = S.bench()
        xs = [b.eng.fresh("n%d" % i) for i in range(arity)]
        c = b.cell(leafval(S, kind, *xs))
        sts = [b.st]
        for i in range(arity + 2):
            nxt = []
            for st in sts:
                for st2, v in b.eng.run(nx, [c], st.copy()):
                    k, x = opt(st2, v)
                    S.ok("LeafAtOffset::next", "item %d of %s" % (i, kind), k is (i < arity) and (i >= arity or x == xs[i]), "item", "does not give the leaves from left to right")
                    nxt.append(st2)
            sts = nxt
        S.ok("LeafAtOffset::next", "returns", bool(sts), "outs", "never returns")
        S.done(b, "LeafAtOffset::next")


def leaf_contract(S, b, st, n, off, report=None):
    """outcomes of find_leaf_at_offset(n, off): [(state, value)]"""
    e, ck = b.eng, b.ck
    s, t = e.app("nstart", n), e.app("nend", n)
    ck.rangeof(e, st, n)
    if report:
        report(b.sure(st, ("and", ("le", s, off), ("le", off, t))))
    out = []
    for st1, empty in e.fork(st, e.cmp("Eq", s, t)):
        if empty: out.append((st1, leafval(S, "None"))); continue
        e.addfact(st1, L.shift(L.add(aff(t), aff(s), -1), -1))
        for st2, atl in e.fork(st1, e.cmp("Eq", s, off)):
            for st3, atr in e.fork(st2, e.cmp("Eq", t, off)):
                x = e.app("leaf", n, off)
                xs, xe = e.app("nstart", x), e.app("nend", x)
                s4 = st3.copy()
                for q in (L.shift(L.add(aff(xe), aff(xs), -1), -1), L.add(aff(xs), aff(s), -1), L.add(aff(t), aff(xe), -1),
                          L.add(aff(off), aff(xs), -1) if atl else L.shift(L.add(aff(off), aff(xs), -1), -1),
                          L.add(aff(xe), aff(off), -1) if atr else L.shift(L.add(aff(xe), aff(off), -1), -1)): e.addfact(s4, q)
                if feasible(s4): out.append((s4, leafval(S, "Single", x)))
                if not atl and not atr:
                    l, r = e.app("leaf_left", n, off), e.app("leaf_right", n, off)
                    s5 = st3.copy()
                    ls, le, rs, re_ = e.app("nstart", l), e.app("nend", l), e.app("nstart", r), e.app("nend", r)
                    for q in (L.add(aff(le), aff(off), -1), L.add(aff(off), aff(le), -1), L.add(aff(rs), aff(off), -1), L.add(aff(off), aff(rs), -1),
                              L.shift(L.add(aff(le), aff(ls), -1), -1), L.shift(L.add(aff(re_), aff(rs), -1), -1), L.add(aff(ls), aff(s), -1), L.add(aff(t), aff(re_), -1)): e.addfact(s5, q)
                    out.append((s5, leafval(S, "Between", l, r)))
    return out


def find_leaf(S):
    F = S.F
    name = SEARCH + "find_leaf_at_offset"
    fn = "find_leaf_at_offset"
    b = S.bench()
    e, ck = b.eng, b.ck
    n, off = b.node, e.fresh("offset")
    ck.rangeof(e, b.st, n)
    s, t = e.app("nstart", n), e.app("nend", n)
    e.addfact(b.st, L.add(aff(off), aff(s), -1)); e.addfact(b.st, L.add(aff(t), aff(off), -1))
    ck.tiling = True
    ck.accept = True

    def pred(eng, st, c):
        cs, ce = eng.app("nstart", c), eng.app("nend", c)
        for x in (eng.cmp("Lt", cs, ce), eng.cmp("Le", cs, off), eng.cmp("Le", off, ce)):
            d = eng.decide(st, x)
            if d is False: return False
            if d is None: und = True; break
        else: return True
        for x in (eng.cmp("Lt", cs, ce), eng.cmp("Le", cs, off), eng.cmp("Le", off, ce)):
            if eng.decide(st, x) is False: return False
        return None
    ck.pred = pred

    def reject(eng, st, c):
        if eng.decide(st, eng.cmp("Lt", eng.app("nstart", c), eng.app("nend", c))) is True: ck.s(st, "some", MON(1))
    ck.reject = reject

    def inv(eng, st):
        cov = ck.g(st, "cov")
        if cov is None: return ()
        d = L.add(aff(cov), aff(off), -1)
        d0 = L.add(aff(cov), aff(s), -1)
        acc = ck.g(st, "acc")
        return (L.shift(L.neg(d), -1), d, L.shift(d, -1), d0, L.neg(d0)) + tuple(q for x in (acc[3] if acc and acc[0] == "adt" else ())
                     for f in [L.add(aff(cov), aff(eng.app("nend", x)), -1)] for q in (f, L.neg(f), L.shift(L.add(aff(eng.app("nend", x)), aff(off), -1), -1)))
    ck.inv = inv

    def begin(eng, st, node):
        NodeCk.begin(ck, eng, st, node)
        ck.s(st, "cov", eng.app("nstart", node))
        ck.s(st, "acc", MON(0)); ck.s(st, "some", MON(0))
    ck.begin = begin
    begin(e, b.st, n)
    pre = []

    def rec(ck, eng, st, args, call):
        c, o = val(eng, st, args[0]), val(eng, st, args[1])
        if c == n: return None
        good = o == off and (ck.is_child(eng, c) is not None)
        if not good: ck.note(eng, "rec", "looks for another offset, or outside of the children")
        return leaf_contract(S, b, st, c, off, None if eng.quiet else pre.append)
    ck.calls[name] = rec
    outs = b.run_rec(F.fn(name), [n, off])
    for g in pre: S.ok(fn, "the offset lies in the child searched", g, "rec", "searches a child the offset does not touch")
    S.ok(fn, "outcomes", len(outs) >= 4, "outs", "lacks an outcome")
    for st, v in outs:
        if v[0] != "adt": S.ok(fn, "decided", False, "undecided", "returns something unknown"); continue
        kind = F.adt(LEAF)["variants"][v[2]]["name"]
        acc = ck.g(st, "acc")[3]
        nch = ck.nchildren(e, n)
        if kind == "None": S.ok(fn, "no leaf only in an empty node", b.sure(st, ("le", t, s)), "none", "finds nothing although the node has text"); continue
        if kind == "Single" and v[3][0] == n:
            S.ok(fn, "a leaf is its own answer", eqn(e, st, nch, const(0)) and b.sure(st, ("lt", s, t)), "self", "answers with a node that is not a leaf"); continue
        S.ok(fn, "every child that touches the offset was looked at", (eqn(e, st, ck.g(st, "k"), nch) and eqn(e, st, ck.g(st, "r"), nch)) or len(acc) == 2, "all", "stops before it has seen all children that may touch the offset")
        if len(acc) == 1:
            want = [leafval(S, "Single", e.app("leaf", acc[0], off)), leafval(S, "Between", e.app("leaf_left", acc[0], off), e.app("leaf_right", acc[0], off))]
            S.ok(fn, "the answer is that of the child", v in want, "one", "answers with something other than the leaf of the child that touches the offset")
        elif len(acc) == 2:
            S.ok(fn, "the two leaves that touch the offset", v == leafval(S, "Between", e.app("leaf", acc[0], off), e.app("leaf", acc[1], off)), "two", "does not answer with the two leaves on both sides")
        else: S.ok(fn, "touching children", False, "acc", "answers although no child was accepted")
        if kind == "Single":
            x = v[3][0]
            xs, xe = e.app("nstart", x), e.app("nend", x)
            S.ok(fn, "a single answer lies strictly inside, or at the border of the node", b.sure(st, ("and", ("or", ("lt", xs, off), ("le", off, s)), ("or", ("lt", off, xe), ("le", t, off)))), "border", "answers with one leaf where two touch")
        elif kind == "Between":
            x, y = v[3]
            S.ok(fn, "two answers meet at the offset", b.eq(st, e.app("nend", x), off) and b.eq(st, e.app("nstart", y), off), "meet", "answers with two leaves that do not meet at the offset")
    S.done(b, fn)


def covering(S):
    F = S.F
    fn = "find_covering_node"
    b = S.bench()
    e, ck = b.eng, b.ck
    n = b.node
    ck.rangeof(e, b.st, n)
    r = b.mkrange("range")
    rs, re_ = b.rng(r)
    s, t = e.app("nstart", n), e.app("nend", n)
    e.addfact(b.st, L.add(aff(rs), aff(s), -1)); e.addfact(b.st, L.add(aff(t), aff(re_), -1))
    pre = []

    def look(ck, eng, st, args, call):
        c, o = val(eng, st, args[0]), val(eng, st, args[1])
        if c != n: ck.note(eng, "root", "searches below another node")
        return leaf_contract(S, b, st, c, o, None if eng.quiet else pre.append)
    ck.calls[SEARCH + "find_leaf_at_offset"] = look
    ck.calls[SEARCH + "common_ancestor"] = lambda ck, eng, st, args, call: [(st, eng.app("common", val(eng, st, args[0]), val(eng, st, args[1])))]
    outs = b.run(F.fn(SEARCH + "find_covering_node"), [n, r])
    for g in pre: S.ok(fn, "searches inside the root", g, "pre", "searches outside the root")
    S.ok(fn, "outcomes", len(outs) >= 2, "outs", "lacks an outcome")
    for st, v in outs:
        if v == n:
            S.ok(fn, "the root only if there is no leaf", b.sure(st, ("le", t, s)), "root", "answers with the root although it has leaves"); continue
        x = e.struct(v) if v[0] == "s" else None
        if not x or x[0] != "app" or x[1] != "common":
            S.ok(fn, "common ancestor of two leaves", False, "value", "answers with something other than the root or a common ancestor"); continue
        a, c = x[2], x[3]
        def cov(a, c):
            as_, ae, cs, ce = (e.app(k, q) for q in (a, c) for k in ("nstart", "nend"))
            good = b.sure(st, ("and", ("le", as_, rs), ("le", re_, ce)))
            s2 = st.copy()
            e.addfact(s2, L.shift(L.add(aff(re_), aff(rs), -1), -1))
            if feasible(s2): good = good and b.sure(s2, ("and", ("lt", rs, ae), ("lt", cs, re_)))
            return good
        S.ok(fn, "the leaves span the range, and no more than needed", cov(a, c) or cov(c, a), "span", "does not span the range with the leaves at its two ends")
    S.done(b, fn)


# ------------------------------------------------------------------ common ancestor, siblings
def common_ancestor(S):
    fn = "common_ancestor"
    b = S.bench()
    e, ck = b.eng, b.ck
    n1, n2 = e.fresh("n1"), e.fresh("n2")
    A = {n1: e.app("anc", n1), n2: e.app("anc", n2)}
    for k in ("k1", "k2"): ck.s(b.st, k, const(0))
    ck.s(b.st, "in", MON(0)); ck.s(b.st, "out", MON(0))       # out: the candidate at hand; in: the ancestor of n2 it is compared with

    def anc(ck, eng, st, args, call):
        n = val(eng, st, args[0])
        if n not in A: ck.note(eng, "of", "looks at the ancestors of another node"); return [(st, eng.fresh("anc"))]
        if n == n2: settle(eng, st); ck.s(st, "k2", const(0)); ck.s(st, "in", MON(0))
        return [(st, madt("VecIter", ("rv", A[n]), const(0)))]
    ck.calls[SEARCH + "ancestors"] = anc
    
    def settle(eng, st):
        """a rejected comparison"""
        o, i = ck.g(st, "out"), ck.g(st, "in")
        if o[2] == 1 and i[2] == 1 and eng.decide(st, eng.cmp("Eq", i[3][0], o[3][0])) is False: ck.s(st, "in", MON(2))

    def on_result(eng, call, args, outs):
        if call["method"] != "next": return
        for st, v in outs:
            if v[0] != "adt" or v[1] != OPTION or v[2] == 0: continue
            x = eng.struct(v[3][0]) if v[3][0][0] == "s" else None
            if not x or x[0] != "elem": continue
            settle(eng, st)
            if x[1] == A[n2]:
                if not eqn(eng, st, x[2], ck.g(st, "k2")): continue
                if ck.g(st, "in")[2] == 1: ck.note(eng, "skip", "passes over an ancestor that may be the common one")
                ck.s(st, "k2", num(L.shift(aff(x[2]), 1))); ck.s(st, "in", MON(1, v[3][0]))
            elif x[1] == A[n1]:
                if not eqn(eng, st, x[2], ck.g(st, "k1")): continue
                if ck.g(st, "out")[2] == 1 and not (ck.g(st, "in")[2] != 1 and eqn(eng, st, ck.g(st, "k2"), num(eng.seqlen(A[n2])))): ck.note(eng, "skip", "passes over a candidate before it was compared with all ancestors")
                ck.s(st, "k1", num(L.shift(aff(x[2]), 1))); ck.s(st, "out", MON(1, v[3][0])); ck.s(st, "k2", const(0)); ck.s(st, "in", MON(0))
            settle(eng, st)
    ck.on_result = on_result
    ck.on_assume = lambda eng, st, c, v: settle(eng, st)
    outs = b.run(S.F.fn(SEARCH + "common_ancestor"), [n1, n2])
    S.ok(fn, "returns", bool(outs), "outs", "never returns")
    for st, v in outs:
        o, i = ck.g(st, "out"), ck.g(st, "in")
        S.ok(fn, "the first common ancestor", o[2] == 1 and v == o[3][0] and i[2] == 1 and e.decide(st, e.cmp("Eq", i[3][0], v)) is True, "value", "returns something other than the first common ancestor")
    for st, _, _ in ck.panics:
        S.ok(fn, "gives up only when there is none", not feasible(st) or eqn(e, st, ck.g(st, "k1"), num(e.seqlen(A[n1]))), "none", "gives up before it has tried every ancestor")
    S.done(b, fn, panics=True)


def sibling(S):
    F = S.F
    D = SEARCH + "Direction"
    for dname, delta in (("Left", -1), ("Right", 1)):
        fn = "sibling(%s)" % dname
        b = S.bench()
        e, ck = b.eng, b.ck
        n = e.fresh("n")
        ck.node = None
        par = e.app("parent", n)
        seq = e.app("children", par)
        outs = b.run(F.fn(SEARCH + "sibling"), [n, ("adt", D, vidx(F, D, dname), ())])
        S.ok(fn, "outcomes", len(outs) >= 3, "outs", "lacks an outcome")
        for st, v in outs:
            if not feasible(st): continue
            k, x = opt(st, v)
            hp = e.decide(st, e.app("has_parent", n))
            if k:
                y = e.struct(x) if x[0] == "s" else None
                good = False
                if y and y[0] == "elem" and y[1] == seq:
                    good = any(z[0] == "elem" and z[1] == seq and eqn(e, st, num(L.shift(aff(y[2]), -delta)), z[2]) and e.decide(st, e.cmp("Eq", ("s", i), n)) is True for i, z in enumerate(list(e.T.structs)))
                S.ok(fn, "the neighbour in the parent", good, "value", "returns something other than the neighbour in the parent")
            elif hp is False: S.ok(fn, "none without parent", True, "", "")
            else:
                # the position found is at the border
                idx = num(L.shift(e.seqlen(seq), -1)) if delta > 0 else const(0)
                at = e.index(st, seq, idx)
                S.ok(fn, "none only at the border", hp is True and border(e, st, seq, n, delta), "none", "finds no neighbour although there is one")
        S.done(b, fn, panics=True)


def border(e, st, seq, n, delta):
    """the child known to be n stands at the border"""
    for i, s in enumerate(e.T.structs):
        if s[0] == "elem" and s[1] == seq and e.decide(st, e.cmp("Eq", ("s", i), n)) is True:
            d = aff(s[2]) if delta < 0 else L.shift(L.add(e.seqlen(seq), aff(s[2]), -1), -1)
            if e.holds(st, L.neg(d)): return True
    return False


# ------------------------------------------------------------------ visitors
def wrapcall(ck, eng, st, args, call):
    n = val(eng, st, args[0])
    return [(s, some(eng.app("ast", n)) if t else NONE) for s, t in eng.fork(st, eng.app("is_ast", n))]


WRAP = "fall_tree::ast::AstNode::wrap"
VISIT = "fall_tree::visitor::Visit::visit"
VIS = "fall_tree::visitor::"
CALLS = tuple("core::ops::function::" + m for m in ("FnMut::call_mut", "FnOnce::call_once", "Fn::call"))


def callarg(eng, st, args, i):
    x = args[1]
    x = x[3] if x[0] == "adt" else x[1] if x[0] == "tup" else (x,)
    return x[i] if i < len(x) else None


def visitors(S):
    F = S.F
    for ty, short in ((VIS + "AstVisitor", "AstVisitor"), (VIS + "TyVisitor", "TyVisitor"), (VIS + "EmptyVisitor", "EmptyVisitor")):
        fn = implfn(F, ty, "Visit", "visit")
        lab = short + "::visit"
        b = S.bench()
        e, ck = b.eng, b.ck
        ck.node = None
        n = e.fresh("node")
        ad = F.adt(ty)["variants"][0]["fields"]
        fv = {f["name"]: e.fresh(f["name"]) for f in ad}
        nodes = None
        if "nodes" in fv:
            nodes = e.fresh("kinds"); fv["nodes"] = nodes
        self_ = ("adt", ty, 0, tuple(fv[f["name"]] for f in ad))
        ctx = e.fresh("ctx")
        ck.s(b.st, "in", const(0)); ck.s(b.st, "f", const(0))
        ck.calls[WRAP] = wrapcall

        def inner(ck, eng, st, args, call):
            good = val(eng, st, args[1]) == n and val(eng, st, args[0]) == fv.get("visitor") and eqn(eng, st, ck.g(st, "in"), const(0)) and eqn(eng, st, ck.g(st, "f"), const(0)) and same_ref(eng, st, args[2], ctx)
            if not good: ck.note(eng, "inner", "does not ask the visitors before it once, first, about the same node and context")
            ck.s(st, "in", const(1))
            return [(st, UNIT)]
        ck.calls[VISIT] = inner

        def callf(ck, eng, st, args, call):
            if closure(eng, st, args[0]): return None
            x, c = callarg(eng, st, args, 0), callarg(eng, st, args, 1)
            want = eng.app("ast", n) if short == "AstVisitor" else n
            good = val(eng, st, x) == want and val(eng, st, args[0]) == fv.get("f") and eqn(eng, st, ck.g(st, "f"), const(0)) and c is not None and same_ref(eng, st, c, ctx)
            if not good: ck.note(eng, "f", "does not call its function once with the node and the context")
            ck.s(st, "f", const(1))
            return [(st, UNIT)]
        for m in CALLS: ck.calls[m] = callf
        has = []

        def contains(eng, st, name, args, call):
            if name.endswith("::contains") and nodes is not None and eng.load(st, args[0]) in (nodes,) or (args and args[0] == nodes and call["method"] == "contains"):
                c = eng.app("has", nodes, val(eng, st, args[1]))
                return [(st, c)]
            return NodeCk.intercept(ck, eng, st, name, args, call)
        ck.intercept = contains
        outs = b.run(fn, [self_, n, ctx])
        S.ok(lab, "returns", bool(outs), "outs", "never returns")
        want = e.app("is_ast", n) if short == "AstVisitor" else e.app("has", nodes, e.app("ty", n)) if nodes is not None else None
        for st, v in outs:
            if short != "EmptyVisitor": S.ok(lab, "asks the visitors before it", eqn(e, st, ck.g(st, "in"), const(1)), "inner", "does not ask the visitors added before")
            d = e.decide(st, want) if want is not None else False
            called = eqn(e, st, ck.g(st, "f"), const(1))
            S.ok(lab, "calls back exactly for nodes that qualify", (d is True and called) or (d is False and eqn(e, st, ck.g(st, "f"), const(0))), "when", "calls back for a node that does not qualify, or does not for one that does")
        S.done(b, lab)
    # builder and drivers
    VB = VIS + "VisitorBuilder"
    vf = [f["name"] for f in F.adt(VB)["variants"][0]["fields"]]
    for drv in ("process_subtree_bottom_up", "process_node"):
        b = S.bench()
        e, ck = b.eng, b.ck
        ck.node = None
        n, ctx, inner_ = e.fresh("node"), e.fresh("ctx"), e.fresh("visitor")
        vis = ("adt", VB, 0, tuple({"ctx": ctx, "visitor": inner_}.get(f, UNIT) for f in vf))
        ck.s(b.st, "seen", const(0))
        state = {"x": None}

        def vcall(ck, eng, st, args, call):
            if val(eng, st, args[0]) != inner_ or val(eng, st, args[1]) != (state["x"] or n): ck.note(eng, "visit", "visits another node")
            r = args[2]
            old = eng.load(st, r)
            eng.store(st, r, eng.app("visited", old, val(eng, st, args[1])))
            return [(st, UNIT)]
        ck.calls[VISIT] = vcall

        def bup(ck, eng, st, args, call):
            if val(eng, st, args[0]) != n: ck.note(eng, "root", "walks another node")
            x = eng.app("any", n)
            state["x"] = x
            ck.s(st, "seen", const(1))
            r = []
            for s2, _ in eng.call_closure(st, args[1], [x], call): r.append((s2, UNIT))
            return r
        ck.calls[SEARCH + "traversal::bottom_up"] = bup
        outs = b.run(F.fn(VIS + drv), [n, vis])
        S.ok(drv, "returns", bool(outs), "outs", "never returns")
        for st, v in outs:
            want = e.app("visited", ctx, state["x"] or n)
            S.ok(drv, "every node is visited once, in one context", v == want and (drv == "process_node" or eqn(e, st, ck.g(st, "seen"), const(1))), "value", "does not visit the nodes once each, or returns another context")
        S.done(b, drv)
    # the queries made of them
    for q, arg in (("descendants_of_type", True), ("ast::descendants_of_type", False)):
        b = S.bench()
        e, ck = b.eng, b.ck
        ck.node = None
        n, ty = e.fresh("node"), e.fresh("ty")
        xs = [e.fresh("x0"), e.fresh("x1")]
        ck.calls[WRAP] = wrapcall

        def bup(ck, eng, st, args, call):
            if val(eng, st, args[0]) != n: ck.note(eng, "root", "searches below another node")
            sts = [st]
            for x in xs:
                nxt = []
                for s in sts: nxt += [s2 for s2, _ in eng.call_closure(s, args[1], [x], call)]
                sts = nxt
            return [(s, UNIT) for s in sts]
        ck.calls[SEARCH + "traversal::bottom_up"] = bup
        outs = b.run(F.fn(SEARCH + q), [n] + ([ty] if arg else []))
        S.ok(q, "outcomes", len(outs) >= 4, "outs", "lacks an outcome")
        for st, v in outs:
            want, und = [], False
            for x in xs:
                d = e.decide(st, e.cmp("Eq", e.app("ty", x), ty) if arg else e.app("is_ast", x))
                if d is None: und = True
                if d: want.append(x if arg else e.app("ast", x))
            got = [c[1] for c in e.seq(v)] if v[0] in ("seq", "arr") and all(c[0] == "it" for c in e.seq(v)) else None
            S.ok(q, "exactly the nodes that qualify, in order", not und and got == want, "value", "does not return exactly the nodes that qualify")
        S.done(b, q)


def closure(eng, st, v):
    """a closure or function of the program, not the opaque callback"""
    for _ in range(4):
        if v[0] in ("ref", "rv"): v = eng.load(st, v)
        elif v[0] == "s" and ("D", v[1]) in st.mem: v = st.mem[("D", v[1])]
    return v[0] in ("clo", "fn", "ctor")


def same_ref(eng, st, r, v):
    return r == v or val(eng, st, r) == v or eng.load(st, r) == v


# ------------------------------------------------------------------ typed queries
def typed(S):
    F = S.F
    isast = lambda eng, st, c: eng.decide(st, eng.app("is_ast", c))
    # first ancestor of a kind
    b = S.bench()
    e, ck = b.eng, b.ck
    ck.of = e.app("anc", b.node)
    ck.calls[WRAP] = wrapcall
    ck.pred = isast
    ck.calls[SEARCH + "ancestors"] = lambda ck, eng, st, args, call: [(st, madt("VecIter", ("rv", eng.app("anc", val(eng, st, args[0]))), const(0)))]
    ck.begin(e, b.st, b.node)
    outs = b.run(F.fn(SEARCH + "ast::ancestor"), [b.node])
    first_child(S, b, "ast::ancestor", outs, unast); S.done(b, "ast::ancestor")
    # typed children
    b = S.bench()
    e, ck = b.eng, b.ck
    ck.calls[WRAP] = wrapcall
    ck.pred = isast
    ck.begin(e, b.st, b.node)
    emit = ck.emit
    ck.emit = lambda eng, st, item: emit(eng, st, unast(b, st, item))
    outs = drain(S, b, F.fn(SEARCH + "ast::children_of_type"), [b.node], "ast::children_of_type")
    all_children(S, b, "ast::children_of_type", outs); S.done(b, "ast::children_of_type")
    # node at an offset
    fn = "ast::node_at_offset"
    b = S.bench()
    e, ck = b.eng, b.ck
    ck.node = None
    n, off = e.fresh("node"), e.fresh("offset")
    xs = [e.fresh("l"), e.fresh("r")]

    def look(ck, eng, st, args, call):
        if val(eng, st, args[0]) != n or val(eng, st, args[1]) != off: ck.note(eng, "look", "looks somewhere else")
        return [(mark(st.copy(), i), leafval(S, k, *a)) for i, (k, a) in enumerate((("None", ()), ("Single", xs[:1]), ("Between", xs)))]

    def mark(st, i): st.mem[("G", "kind")] = MON(i); return st
    ck.calls[SEARCH + "find_leaf_at_offset"] = look
    ck.calls[SEARCH + "ast::ancestor"] = lambda ck, eng, st, args, call: [(s, some(eng.app("up", val(eng, st, args[0]))) if t else NONE) for s, t in eng.fork(st, eng.app("has_up", val(eng, st, args[0])))]
    outs = b.run(F.fn(SEARCH + "ast::node_at_offset"), [n, off])
    S.ok(fn, "outcomes", len(outs) >= 6, "outs", "lacks an outcome")
    for st, v in outs:
        kind = ck.g(st, "kind")
        cands = xs[:kind[2]] if kind else []
        want, und = None, kind is None
        for x in cands:
            d = e.decide(st, e.app("has_up", x))
            if d is None: und = True; break
            if d: want = e.app("up", x); break
        k, x = opt(st, v)
        S.ok(fn, "the nearest enclosing node of the kind", not und and (k is False if want is None else k is True and x == want), "value", "does not give the enclosing node of a leaf at the offset")
    S.done(b, fn)


def unast(b, st, v):
    x = b.eng.struct(v) if v[0] == "s" else None
    return x[2] if x and x[0] == "app" and x[1] == "ast" else v


# ------------------------------------------------------------------ C16: edits of a tree
EDITS = "fall_tree::edit::FileEdit"
TB = "fall_text::text_edit::TextEditBuilder"
TXT = "fall_text::text::Text"
FILE = "fall_tree::node::File"


class EditCk(NodeCk):
    """the three lists of a FileEdit are scanned for the node at hand"""
    def __init__(self):
        NodeCk.__init__(self)
        self.lists = {}          # sequence value -> name
        self.n = None

    def settle(self, eng, st):
        for L_, nm in self.lists.items():
            c = self.g(st, "cur" + nm)
            if c is None or c[2] != 1: continue
            d = eng.decide(st, eng.cmp("Eq", self.key(eng, c[3][0], nm), self.n))
            if d is False: self.s(st, "cur" + nm, MON(0))
            elif d is True: self.s(st, "cur" + nm, MON(2, c[3][0]))

    def key(self, eng, item, nm): return item if nm == "deleted" else eng.fld(item, 0, "0")
    def text(self, eng, item): return eng.fld(item, 1, "1")

    def on_assume(self, eng, st, c, v):
        if self.lists: self.settle(eng, st)
        NodeCk.on_assume(self, eng, st, c, v)

    def on_result(self, eng, call, args, outs):
        NodeCk.on_result(self, eng, call, args, outs)
        if call["method"] != "next": return
        for st, v in outs:
            if v[0] != "adt" or v[1] != OPTION or v[2] == 0: continue
            x = v[3][0]
            while x[0] in ("ref", "rv"): x = eng.load(st, x)
            x = eng.struct(x) if x[0] == "s" else None
            if not x or x[0] != "elem" or x[1] not in self.lists: continue
            nm = self.lists[x[1]]
            self.settle(eng, st)
            if not eqn(eng, st, x[2], self.g(st, "k" + nm)): continue
            if self.g(st, "cur" + nm)[2] == 1: self.note(eng, "skip" + nm, "passes over an entry of `%s` that may be about the node" % nm)
            if self.g(st, "cur" + nm)[2] == 2: continue
            self.s(st, "k" + nm, num(L.shift(aff(x[2]), 1)))
            self.s(st, "cur" + nm, MON(1, eng.index(st, x[1], x[2])))
            self.settle(eng, st)

    def found(self, eng, st, nm):
        """True / False / None, entry"""
        self.settle(eng, st)
        c = self.g(st, "cur" + nm)
        if c[2] == 2: return True, c[3][0]
        seq = next(s for s, m in self.lists.items() if m == nm)
        if c[2] == 0 and eqn(eng, st, self.g(st, "k" + nm), num(eng.seqlen(seq))): return False, None
        return None, None

    def intercept(self, eng, st, name, args, call):
        if name == "core::slice::contains" and self.lists:
            xs = eng.load(st, args[0])
            if xs in self.lists and self.lists[xs] == "deleted" and val(eng, st, args[1]) == self.n:
                i = eng.fresh("at")
                s2 = st.copy()
                self.s(st, "curdeleted", MON(2, eng.index(st, xs, i)))
                self.s(s2, "kdeleted", num(eng.seqlen(xs))); self.s(s2, "curdeleted", MON(0))
                return [(st, TRUE), (s2, FALSE)]
        if name.endswith(("as core::ops::deref::Deref>::deref", "::as_str", "::as_ref", "as core::convert::AsRef<str>>::as_ref", "as core::borrow::Borrow<str>>::borrow")) and ("String" in name or "Cow" in name): return [(st, args[0])]
        if name in (TXT + "::to_string", TXT + "::to_cow") or name.endswith("as alloc::string::ToString>::to_string") or name in ("alloc::string::ToString::to_string", "alloc::borrow::Cow::into_owned"): return [(st, val(eng, st, args[0]))]
        if name == TXT + "::slice":
            r = args[1]
            return [(st, eng.app("slice", val(eng, st, args[0]), eng.fld(r, fidx(eng.F, RANGE, "start"), "start", "", RANGE), eng.fld(r, fidx(eng.F, RANGE, "end"), "end", "", RANGE)))]
        if name.endswith("as core::ops::arith::Add<&str>>::add"): return [(st, ("seq", tuple(eng.seq(val(eng, st, args[0]))) + tuple(eng.seq(val(eng, st, args[1])))))]
        if name == "alloc::string::String::push_str":
            eng.store(st, args[0], ("seq", tuple(eng.seq(eng.load(st, args[0]))) + tuple(eng.seq(val(eng, st, args[1])))))
            return [(st, UNIT)]
        if name == "alloc::string::String::new" or name == "alloc::string::String::with_capacity": return [(st, ("seq", ()))]
        if name == FILE + "::root": return [(st, eng.app("root", val(eng, st, args[0])))]
        if name == FILE + "::text": return [(st, eng.app("ftext", val(eng, st, args[0])))]
        return NodeCk.intercept(self, eng, st, name, args, call)


def edits(S):
    F = S.F
    fields = [f["name"] for f in F.adt(EDITS)["variants"][0]["fields"]]

    def edit_bench():
        b = S.bench()
        b.ck = b.eng.ck = b.k = EditCk()
        b.f = {n: b.eng.fresh(n) for n in fields}
        b.self_ = ("adt", EDITS, 0, tuple(b.f[n] for n in fields))
        return b

    # ---- what is recorded
    for meth, lst in (("replace_with_text", "replaced"), ("insert_text_after", "inserted"), ("delete", "deleted"), ("replace", "replaced")):
        lab = "FileEdit::" + meth
        fn = F.fn(EDITS + "::" + meth)
        b = edit_bench()
        e = b.eng
        n, t = e.fresh("node"), e.fresh("text")
        c = b.cell(b.self_)
        outs = e.run(fn, b.args(fn, [c, n] + ([] if meth == "delete" else [t])), b.st)
        S.ok(lab, "returns", bool(outs), "outs", "never returns")
        for st, v in outs:
            new = st.mem[("D", c[1])]
            item = n if meth == "delete" else ("tup", (n, t if meth != "replace" else e.app("ntext", t)))
            good = new[0] == "adt"
            for i, nm in enumerate(fields):
                old, now = b.f[nm], new[3][i] if good else None
                if now == old: good = good and nm != lst
                else: good = good and nm == lst and tuple(e.seq(now)) == tuple(e.seq(old)) + (("it", item),)
            S.ok(lab, "is recorded", good, "record", "does not record exactly the request")
        S.done(b, lab)

    # ---- how the requests become text edits
    lab = "FileEdit::text_edit_for_node"
    name = EDITS + "::text_edit_for_node"
    b = edit_bench()
    e, ck = b.eng, b.ck
    ck.n = n = b.node
    ck.lists = {b.f[k]: k for k in ("deleted", "replaced", "inserted")}
    for k in ck.lists.values(): ck.s(b.st, "k" + k, const(0)); ck.s(b.st, "cur" + k, MON(0))
    ck.begin(e, b.st, n)
    for k in ("done", "main", "ins"): ck.s(b.st, k, const(0))
    bld = e.fresh("builder")
    zero = lambda eng, st, k: eqn(eng, st, ck.g(st, k), const(0))

    def isb(eng, st, x): return x == bld or val(eng, st, x) == bld or eng.load(st, x) == bld

    def rng(eng, st, r): return eng.fld(r, fidx(F, RANGE, "start"), "start", "", RANGE), eng.fld(r, fidx(F, RANGE, "end"), "end", "", RANGE)

    def own(eng, st, r):
        s, t = rng(eng, st, r)
        return eqn(eng, st, s, eng.app("nstart", n)) and eqn(eng, st, t, eng.app("nend", n))

    def rec(ck, eng, st, args, call):
        c = val(eng, st, args[1])
        k = ck.is_child(eng, c)
        if k is None or not eqn(eng, st, k, ck.g(st, "done")) or not isb(eng, st, args[2]): ck.note(eng, "order", "does not edit the children in order, each once")
        if ck.found(eng, st, "deleted")[0] is not False or ck.found(eng, st, "replaced")[0] is not False: ck.note(eng, "kept", "keeps parts of a node that is deleted or replaced")
        if not zero(eng, st, "main") or not zero(eng, st, "ins"): ck.note(eng, "late", "edits a child too late")
        ck.s(st, "done", num(L.shift(aff(ck.g(st, "done")), 1)))
        return [(st, UNIT)]
    ck.calls[name] = rec

    def delete(ck, eng, st, args, call):
        if ck.found(eng, st, "deleted")[0] is not True or not own(eng, st, args[1]) or not isb(eng, st, args[0]): ck.note(eng, "delete", "deletes something that is not a deleted node's text")
        if not zero(eng, st, "main") or not zero(eng, st, "ins") or not zero(eng, st, "done"): ck.note(eng, "twice", "edits a node twice")
        ck.s(st, "main", const(1))
        return [(st, UNIT)]

    def same_text(eng, st, x, item): return val(eng, st, x) == ck.text(eng, item)

    def replace(ck, eng, st, args, call):
        f, it = ck.found(eng, st, "replaced")
        if f is not True or ck.found(eng, st, "deleted")[0] is not False or not own(eng, st, args[1]) or not isb(eng, st, args[0]) or not same_text(eng, st, args[2], it): ck.note(eng, "replace", "replaces something else than a replaced node's text, or by another text")
        if not zero(eng, st, "main") or not zero(eng, st, "ins") or not zero(eng, st, "done"): ck.note(eng, "twice", "edits a node twice")
        ck.s(st, "main", const(1))
        return [(st, UNIT)]

    def main_done(eng, st):
        d, r = ck.found(eng, st, "deleted")[0], ck.found(eng, st, "replaced")[0]
        if d is True or (d is False and r is True): return eqn(eng, st, ck.g(st, "main"), const(1)) and zero(eng, st, "done")
        if d is False and r is False: return zero(eng, st, "main") and eqn(eng, st, ck.g(st, "done"), ck.nchildren(eng, n))
        return False

    def insert(ck, eng, st, args, call):
        f, it = ck.found(eng, st, "inserted")
        if f is not True or not eqn(eng, st, args[1], eng.app("nend", n)) or not isb(eng, st, args[0]) or not same_text(eng, st, args[2], it): ck.note(eng, "insert", "inserts something else than the text asked for at the end of the node")
        if not main_done(eng, st): ck.note(eng, "early", "inserts before the node itself is edited")
        if not zero(eng, st, "ins"): ck.note(eng, "twice", "inserts twice")
        ck.s(st, "ins", const(1))
        return [(st, UNIT)]
    ck.calls[TB + "::delete"], ck.calls[TB + "::replace"], ck.calls[TB + "::insert"] = delete, replace, insert
    outs = b.run_rec(F.fn(name), [b.self_, n, bld])
    S.ok(lab, "outcomes", len(outs) >= 3, "outs", "lacks an outcome")
    for st, v in outs:
        S.ok(lab, "the node is deleted, replaced, or its children edited", main_done(e, st), "main", "does not delete, replace or descend into a node as asked")
        f = ck.found(e, st, "inserted")[0]
        S.ok(lab, "text asked for after the node is inserted", (f is True and eqn(e, st, ck.g(st, "ins"), const(1))) or (f is False and zero(e, st, "ins")), "ins", "drops text that was to be inserted after the node")
    S.done(b, lab)

    # ---- the whole edit
    lab = "FileEdit::into_text_edit"
    b = edit_bench()
    e, ck = b.eng, b.ck
    ck.node = None
    fl = b.f["file"]
    text = e.app("ftext", fl)
    ck.calls[TB + "::new"] = lambda ck, eng, st, args, call: [(st, eng.app("builder", val(eng, st, args[0])))]
    ck.calls[TXT + "::len"] = lambda ck, eng, st, args, call: [(st, eng.app("tlen", val(eng, st, args[0])))]

    def walk(ck, eng, st, args, call):
        if val(eng, st, args[1]) != eng.app("root", fl): ck.note(eng, "root", "does not start at the root")
        eng.store(st, args[2], eng.app("edited", eng.load(st, args[2])))
        return [(st, UNIT)]
    ck.calls[name] = walk
    opsi = fidx(F, "fall_text::text_edit::TextEdit", "ops")
    nf = len(F.adt("fall_text::text_edit::TextEdit")["variants"][0]["fields"])

    def build(ck, eng, st, args, call):
        v = [UNIT] * nf
        v[opsi] = eng.app("ops", args[0])
        return [(st, ("adt", "fall_text::text_edit::TextEdit", 0, tuple(v)))]
    ck.calls[TB + "::build"] = build
    e.addfact(b.st, aff(e.app("tlen", text)))
    outs = b.run(F.fn(EDITS + "::into_text_edit"), [b.self_])
    S.ok(lab, "returns", bool(outs), "outs", "never returns")
    OPS = "fall_text::text_edit::TextEditOp"
    for st, v in outs:
        ops = e.seq(v[3][opsi]) if v[0] == "adt" else ()
        want = e.app("ops", e.app("edited", e.app("builder", text)))
        good = bool(ops) and ops[0] == ("ck", want[1])
        for o in ops[1:]:
            o = o[1] if o[0] == "it" else None
            ok = o and o[0] == "adt" and o[2] == vidx(F, OPS, "Copy")
            if ok:
                s, t = rng(e, st, o[3][0])
                ok = eqn(e, st, s, t) and b.sure(st, ("and", ("le", const(0), s), ("le", t, e.app("tlen", text))))
            good = good and bool(ok)
        S.ok(lab, "the edit of the whole tree, from the file's own text", good, "ops", "is not the edit made by walking the tree from its root")
    S.done(b, lab)

    # ---- replacing a substring
    lab = "FileEdit::replace_substring"
    b = edit_bench()
    e, ck = b.eng, b.ck
    ck.node = None
    fl = b.f["file"]
    r = b.mkrange("range")
    rs, re_ = b.rng(r)
    rep = e.fresh("replacement")
    root = e.app("root", fl)
    ck.rangeof(e, b.st, root)

    def cover(ck, eng, st, args, call):
        x = val(eng, st, args[0])
        s, t = rng(eng, st, args[1]) if args[1][0] != "s" else rng(eng, st, val(eng, st, args[1]))
        if x != root or not (eng.holds(st, L.add(aff(s), aff(eng.app("nstart", root)), -1)) and eng.holds(st, L.add(aff(eng.app("nend", root)), aff(t), -1))): ck.note(eng, "cover", "looks for a node around something outside of the file")
        c = eng.app("cover", x, s, t)
        eng.addfact(st, L.add(aff(s), aff(eng.app("nstart", c)), -1)); eng.addfact(st, L.add(aff(eng.app("nend", c)), aff(t), -1))
        eng.addfact(st, L.add(aff(t), aff(s), -1))
        return [(st, c)]
    ck.calls[SEARCH + "find_covering_node"] = cover
    c = b.cell(b.self_)
    fn = F.fn(EDITS + "::replace_substring")
    outs = e.run(fn, b.args(fn, [c, r, rep]), b.st)
    S.ok(lab, "returns", bool(outs), "outs", "never returns")
    li = fields.index("replaced")
    for st, v in outs:
        new = st.mem[("D", c[1])][3]
        good = all(x == b.f[nm] for x, nm in zip(new, fields) if nm != "replaced")
        seq = e.seq(new[li])
        good = good and len(seq) == 2 and seq[0] == ("ck", b.f["replaced"][1]) and seq[1][0] == "it" and seq[1][1][0] == "tup"
        if good:
            nd, tx = seq[1][1][1]
            parts = [("s", x[1]) if x[0] == "ck" else x for x in e.seq(tx)]
            s, t = e.app("nstart", nd), e.app("nend", nd)
            ft = e.app("ftext", fl)
            good = len(parts) == 3 and parts[1] == rep
            for p, (lo, hi) in zip(parts[::2] if good else (), ((s, rs), (re_, t))):
                x = e.struct(p) if p[0] == "s" else None
                good = good and bool(x) and x[:2] == ("app", "slice") and x[2] == ft and eqn(e, st, x[3], lo) and eqn(e, st, x[4], hi)
            nx = e.struct(nd)
            good = good and (nd == root or nx and nx[:2] == ("app", "cover"))
        S.ok(lab, "the node around the range gets its own text with the range replaced", good, "text", "does not replace exactly the range")
    for st, _, _ in ck.panics:
        s, t = e.app("nstart", root), e.app("nend", root)
        s2 = st.copy()
        e.addfact(s2, L.add(aff(rs), aff(s), -1)); e.addfact(s2, L.add(aff(t), aff(re_), -1))
        S.ok(lab, "refuses only a range outside of the file", not feasible(s2), "panic", "refuses a range inside the file")
    S.done(b, lab, panics=True)


def analyse(F, M, rep, ctx):
    S = Suite(F, M, rep, ctx, "C17")
    queries(S)
    subtree(S)
    recursive(S, SEARCH + "traversal::bottom_up", SEARCH + "traversal::bottom_up::go", "post", "bottom_up")
    recursive(S, "fall_tree::util::walk_tree", "fall_tree::util::walk_tree::go", "pre", "walk_tree")
    ancestors(S)
    is_leaf(S)
    leaf_at(S)
    find_leaf(S)
    covering(S)
    common_ancestor(S)
    sibling(S)
    visitors(S)
    typed(S)
    edits(Suite(F, M, rep, ctx, "C16"))
