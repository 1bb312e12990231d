"""C30: reformatting: what the formatters ask of the edit for an arbitrary node, against a table of the blank space wanted
around each kind of token; nothing but blank space inside a line is touched."""
from rules_actions import *

SIB = "fall_tree::search::sibling"
ROOT = "fall_tree::node::File::root"
SUB = ("fall_tree::search::subtree",)
TEXT_ = "fall_text::text::Text"
# what is wanted at a side of a token: one blank or none
WANTED = {"lang_fall_syntax": {("PIPE", "Right"): " ", ("PIPE", "Left"): " ", ("L_ANGLE", "Right"): "", ("R_ANGLE", "Left"): ""}}


class FmtCk(AstCk):
    def __init__(self, S, go):
        AstCk.__init__(self, ())
        self.S, self.go = S, go
        self.walks = []          # (state, function, arguments, which of them is the node)
        self.inner = None        # (function, arguments, index of the node)
        self.files = []
        self.anodes = ()
        self.wrong = []
        self.paths = {}

    def ops(self, st):
        return [x[1] for x in self.ops_raw(st)]

    def known(self, eng, st): return situation(self, eng, st, self.arbitrary, self.wanted, self.kinds)

    def ops_raw(self, st):
        g = self.g(st, "ops")
        return g[3] if g is not None and g[0] == "adt" else ()

    def has_sibling(self, eng, n, side): return eng.app("sib:" + side, n)

    def sibling(self, eng, n, side): return eng.fld(self.has_sibling(eng, n, side), 0, "0", "Some", OPTION)

    def newline(self, eng, n): return eng.app("newline", n)

    def textual(self, eng, st, x):
        """the node whose text this is"""
        x = self.strof(eng, st, x)
        y = eng.struct(x) if x[0] == "s" else None
        return y[2] if y and y[0] == "app" and y[1] == "ntext" else None

    def intercept(self, eng, st, name, args, call):
        m = call["method"]
        if "{closure" in name: return None
        if name == NODE + "::children" and self.inner is not None:
            # what led here is not forgotten in loops
            k = (tuple(self.ops_raw(st)), self.known(eng, st))
            self.paths.setdefault(k, st.copy())
            self.s(st, "path", MON(list(self.paths).index(k)))
        if name == ROOT: return [(st, eng.app("root", self.strof(eng, st, val(eng, st, args[0]))))]
        if name.startswith(FE + "::"):
            a = [self.strof(eng, st, val(eng, st, x)) for x in args]
            if m == "new":
                self.files.append(a[0])
                return [(st, eng.app("edits", a[0]))]
            if m == "into_text_edit":
                if self.inner: self.wrong.append(("early", "ends the edit while it goes through the tree"))
                self.s(st, "made", MON(1, a[0]))
                return [(st, eng.app("edit", a[0]))]
            if m in ("delete", "replace_with_text", "insert_text_after", "replace", "replace_substring"):
                old = self.g(st, "ops") or MON(0)
                self.s(st, "ops", MON(old[2] + 1, *(old[3] + (("tup", (("str", m), *[self.plain(eng, eng.snap(st, x)) for x in a[1:]])),))))
                return [(st, UNIT)]
        if name == SIB:
            n, d = self.strof(eng, st, val(eng, st, args[0])), val(eng, st, args[1])
            outs = []
            for s2, side in self.sides(eng, st, d):
                for s3, b in eng.fork(s2, self.has_sibling(eng, n, side)): outs.append((s3, some(self.sibling(eng, n, side)) if b else NONE))
            return outs
        t = self.textual(eng, st, args[0]) if args else None
        if t is not None:
            if m == "len":
                self.rangeof(eng, st, t)
                return [(st, num(L.add(aff(eng.app("nend", t)), aff(eng.app("nstart", t)), -1)))]
            if m == "is_empty": return [(st, eng.cmp("Eq", eng.app("nend", t), eng.app("nstart", t)))]
            if m in ("to_cow", "to_string", "as_str", "deref", "as_ref", "borrow", "into_owned", "clone", "as_text", "into", "from", "to_owned"): return [(st, eng.app("ntext", t))]
            if m in ("contains", "find") and len(args) > 1 and self.isnl(eng, st, args[1]):
                if m == "contains": return [(st, self.newline(eng, t))]
                return [(s2, some(eng.app("newline at", t)) if b else NONE) for s2, b in eng.fork(st, self.newline(eng, t))]
        if name in SUB:
            self.anodes = (eng.app("earlier", ("tup", ())), eng.app("arbitrary", ("tup", ())))
            return [(st, madt("VecIter", ("rv", ("arr", self.anodes)), const(0)))]
        if name in self.go:
            a = list(args)
            i = self.nodearg(name)
            if self.inner is None:
                self.walks.append((st.copy(), name, tuple(a), i))
                self.s(st, "walked", MON(1, self.strof(eng, st, val(eng, st, a[i]))))
                return [(st, UNIT)]
            fn, a0, i0 = self.inner
            n = self.strof(eng, st, val(eng, st, a[i]))
            k, c = self.is_child(eng, n), self.g(st, "done")
            if name != fn: self.wrong.append(("rec", "does not go through the children in the way it goes through the tree"))
            elif c is None or k is None or not eqn(eng, st, k, c): self.wrong.append(("order", "does not go to each child once"))
            else: self.s(st, "done", num(L.shift(aff(c), 1)))
            if len(a) == len(a0) and any(j != i and self.strof(eng, st, val(eng, st, x)) != self.strof(eng, st, val(eng, st, y)) for j, (x, y) in enumerate(zip(a, a0))):
                self.wrong.append(("args", "treats the children in another way than the file"))
            return [(st, UNIT)]
        return AstCk.intercept(self, eng, st, name, args, call)

    def plain(self, eng, x):
        """a constant text, however it was made into a string"""
        for _ in range(4):
            y = eng.struct(x) if x[0] == "s" else None
            if x[0] == "rv": x = x[1]
            elif y and y[0] == "app" and len(y) == 3 and y[1].split("::")[-1] in ("from", "to_string", "to_owned", "into"): x = y[2]
            else: break
        return x

    def isnl(self, eng, st, p):
        p = self.strof(eng, st, val(eng, st, p))
        return p == ("str", "\n") or p == const(10) or p == ("c", 10)

    def sides(self, eng, st, d):
        d = self.strof(eng, st, d)
        if d[0] != "adt": raise CheckError("a neighbour on an unknown side")
        return [(st, self.S.F.adts[d[1]]["variants"][d[2]]["name"])]

    def nodearg(self, name):
        fn = self.S.F.fn(name)
        ks = [i for i, (ty, _) in enumerate(fn.locals[1:fn.argc + 1]) if isnode(ty)]
        if len(ks) != 1: raise CheckError("%s does not go through the tree by one node" % name)
        return ks[0]


def isnode(ty):
    while ty["k"] == "ref": ty = ty["to"]
    return ty["k"] == "adt" and canon(ty["def"]) == "fall_tree::node::Node"


class Fmt(Actions):
    def __init__(self, F, M, rep, ctx):
        Actions.__init__(self, F, M, rep, ctx)
        self.prop = "C30"
        self.g = Graph(F)

    def kindval(self, syn, name):
        ks = [k for k, n in syn.lang.names.items() if n == name and k in syn.lang.kinds]
        if len(ks) != 1: raise CheckError("anchor missing: kind %s of %s" % (name, syn.crate))
        return const(ks[0])

    def rec(self, fn):
        """functions reached that walk the tree by calling themselves"""
        out = set()
        for p in self.g.reach([fn.path]):
            f = self.F.fns.get(p)
            if f is None or f.kind != "fn" or p.startswith(("fall_tree::", "<fall_tree::", "fall_text::")): continue
            if not any(isnode(ty) for ty, _ in f.locals[1:f.argc + 1]): continue
            if p in self.g.reach([q for q in self.g.callees(p)]): out.add(p)
        return out


def situation(ck, e, st, n, wanted, kinds):
    """what is known of each side of a token that blanks are wanted at: (kind, side, there, newline, blank, one blank), and the kinds it may have"""
    ty = e.app("ty", n)
    isk = {k: e.decide(st, e.cmp("Eq", ty, kinds[k])) for k, _ in wanted}
    may = [k for k in isk if isk[k] is True] or [k for k in isk if isk[k] is None]
    out = []
    for k, side in wanted:
        if k not in may: continue
        sib = ck.sibling(e, n, side)
        out.append((k, isk[k], side, e.decide(st, ck.has_sibling(e, n, side)), e.decide(st, ck.newline(e, sib)), e.decide(st, e.cmp("Eq", e.app("ty", sib), kinds["WHITESPACE"])), eqn(e, st, e.app("nend", sib), num(L.shift(aff(e.app("nstart", sib)), 1)))))
    return tuple(out)


def judge(S, w, ck, e, st, n, wanted, kinds, ops=None):
    """what is asked for one node: all that is wanted, nothing else"""
    ops = ck.ops(st) if ops is None else ops
    g = ck.g(st, "path")
    now = situation(ck, e, st, n, wanted, kinds)
    if g is not None:
        s0 = list(ck.paths.values())[g[2]]
        then = situation(ck, e, s0, n, wanted, kinds)
        if not ops: ops = ck.ops(s0)
        elif ck.ops(s0): ops = ck.ops(s0) + [o for o in ops if o not in ck.ops(s0)]
        old = {(y[0], y[2]): y for y in then}
        now = tuple(tuple(p if p not in (None, False) or q is None else q for p, q in zip(x, old[(x[0], x[2])])) for x in now if (x[0], x[2]) in old)
    good = {}
    for k, sure, side, has, nl, ws, one in now:
        text, sib = wanted[(k, side)], ck.sibling(e, n, side)
        fit = None
        if text == "": fit = [("str", "delete"), sib] if ws is True else None
        elif ws is True: fit = [("str", "replace_with_text"), sib, ("str", text)]
        elif ws is False: fit = [("str", "insert_text_after"), n if side == "Right" else sib, ("str", text)]
        if fit and nl is False and has is True and sure: good[(side, k)] = fit
        if has is False or nl is True or text == "" and ws is False or text and ws is True and one: continue
        S.ok(w, "%s of %s" % ({"Right": "right", "Left": "left"}[side], k), fit is not None and list(fit) in [list(o) for o in ops], "missing:%s:%s" % (k, side),
             "need not leave %s %s a %s" % ("one blank" if text else "no blank", "behind" if side == "Right" else "before", k))
    for o in ops:
        S.ok(w, "nothing else is changed", any(list(o) == list(f) for f in good.values()), "extra:%s" % o[0][1], lambda: "%s: may ask the edit for something else than blank space within a line around a token (%s)" % (w, o[0][1]))
    S.ctx.count("paths")
    return {(s, k, f[0][1]) for (s, k), f in good.items() if list(f) in [list(o) for o in ops]}


def editor(S, i):
    F = S.F
    who = canon(i["self"]).split("::")[-1]
    w = "reformat of %s" % who
    fn, own = method(S, i, "reformat")
    go = S.rec(fn)
    syn = next((s for c, s in S.syn.items() if c.replace("_syntax", "") == canon(i["self"]).split("::")[0] or c == canon(i["self"]).split("::")[0]), None)
    wanted = WANTED.get(syn.crate, {}) if syn is not None else {}
    kinds = {k: S.kindval(syn, k) for k in {k for k, _ in wanted} | {"WHITESPACE"}} if wanted else {}
    ck = FmtCk(S, go)
    b = Bench(F, S.M, ck)
    e = b.eng
    e.unroll = True
    e.max_shapes = 400
    me = e.fresh("file")
    outs = [(s, v) for s, v in e.run(fn, [b.cell(me)], b.st) if feasible(s)]
    S.ok(w, "answers", bool(outs), "outs", "never answers")
    seen = set()
    for st, v in outs:
        v = ck.strof(e, st, v)
        x = e.struct(v) if v[0] == "s" else None
        good = x and x[0] == "app" and x[1] == "edit"
        S.ok(w, "answers with the edit", good, "edit", "answers with something else than the edit")
        if not good: continue
        y = e.struct(x[2])
        f = y[2] if y and y[0] == "app" and y[1] == "edits" else None
        S.ok(w, "edits the editor's file", f is not None and belongs(e, f, me, b), "file", "edits another file")
        if not wanted:
            S.ok(w, "changes nothing", not ck.ops(st) and not ck.walks, "nothing", "asks the edit for changes although the language has no format")
            continue
        g = ck.g(st, "walked")
        S.ok(w, "goes through the whole file", g is not None and g[3][0] == e.app("root", f) or bool(ck.anodes), "walk", "does not go through the tree from the root")
        if ck.anodes:
            for n in ck.anodes: seen |= judge(S, w, ck, e, st, n, wanted, kinds, [o for o in ck.ops(st) if mine(e, ck, o, n)])
            S.ok(w, "nothing else is changed", all(any(mine(e, ck, o, n) for n in ck.anodes) for o in ck.ops(st)), "extra", "may ask the edit for something else than blank space within a line around a token")
        else: S.ok(w, "only nodes of the tree are changed", not ck.ops(st), "outside", "asks the edit for changes apart from those of the nodes")
    todo, done = list(ck.walks), set()
    for st, name, args, k in todo:
        if name in done: continue
        done.add(name)
        node = e.app("arbitrary node", ("tup", ()))
        a = list(args)
        a[k] = node if F.fn(name).locals[1 + k][0]["k"] != "ref" else b.cell(node)
        s = st.copy()
        if a[k] != node: s.mem[("D", a[k][1])] = node
        ck.inner = (name, tuple(a), k)
        ck.arbitrary, ck.wanted, ck.kinds = node, wanted, kinds
        ck.begin(e, s, node)
        ck.s(s, "done", const(0)); ck.s(s, "ops", MON(0))
        del ck.wrong[:]
        rs = [(s2, v) for s2, v in e.run(F.fn(name), a, s) if feasible(s2)]
        S.ok(w, "every node is treated", bool(rs), "node:outs", "never finishes a node")
        for key, msg in ck.wrong: S.ok(w, "every child is treated like its parent", False, "walk:" + key, msg)
        for s2, _ in rs:
            S.ok(w, "every child is treated", eqn(e, s2, ck.g(s2, "done"), ck.nchildren(e, node)), "children", "leaves out children of a node")
            seen |= judge(S, w, ck, e, s2, node, wanted, kinds)
        ck.inner = None
    for (k, side), text in sorted(wanted.items()):
        for op in ("replace_with_text", "insert_text_after") if text else ("delete",):
            S.ok(w, "%s at the %s of %s happens" % (op, side, k), (side, k, op) in seen, "never:%s:%s:%s" % (k, side, op), "never leaves %s %s a %s" % ("one blank" if text else "no blank", "behind" if side == "Right" else "before", k))
            S.ctx.count("changes")
    for key, msg in ck.bad: S.ok(w, msg, False, key, msg)
    ps = [p for p in ck.panics if feasible(p[0])]
    S.ok(w, "does not fail", not ps, "panic", lambda: "%s may panic: %s" % (w, ps[0][2]))
    for (p, kd, c), good in ck.asserts.items(): S.ok(w, "in range", good, "assert:%s" % kd, "%s in %s is not proved" % (kd, p))
    S.ctx.account(e)
    S.ctx.count("editors")
    return bool(wanted)


def mine(e, ck, o, n):
    return len(o) > 1 and o[1] in (n, ck.sibling(e, n, "Left"), ck.sibling(e, n, "Right"))


def belongs(e, f, me, b):
    """the file comes from the editor and from nothing else"""
    f = ("s", f[1]) if f[0] == "s" else f
    for _ in range(6):
        if f == me: return True
        x = e.struct(f) if f[0] == "s" else None
        if x is None: return False
        if x[0] == "app":
            if x[1].split("::")[-1] in ("edit", "parse", "reparse", "new") or len(x) != 3: return False
            f = x[2]
        elif x[0] == "f": f = x[3]
        else: return False
        while f[0] in ("ref", "rv"): f = e.load(b.st, f)
        if f[0] == "T": f = ("s", f[1])
    return False


def analyse(F, M, rep, ctx):
    S = Fmt(F, M, rep, ctx)
    impls = [i for i in F.impls if i["trait"] and canon(i["trait"]) == EFI]
    if not impls: raise CheckError("anchor missing: editors")
    n = [editor(S, i) for i in impls]
    if not any(n): raise CheckError("anchor missing: formatters")
