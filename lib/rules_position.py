"""C23: queries that take a position in the file. The file is an opaque tree whose nodes lie inside each other; every
entry point of the editors is interpreted for every offset or range inside the file, and what the tree, the text and the
edits demand of a position is demanded at every place that hands one on."""
from rules_actions import *
from rules_text import TEXT

UNIT_ = "fall_text::text_unit::TextUnit"
LEAVES = "fall_tree::search::LeafAtOffset"
FILE = "fall_tree::node::File"
SEARCH = "fall_tree::search::"


class PosCk(ActCk):
    def __init__(self, S):
        ActCk.__init__(self, S)
        self.need = {}           # what is demanded of positions -> proved
        self.file = None
        self.sel = None
        self.borders = set()     # offsets that are borders of characters
        self.found = []          # parts of the file that searches came across: (type, element, answer)
        self.lists = {}          # all parts of the file of one type
        self.partty = {}
        self.parts = {}          # parts of elements -> the element
        self.alone = {}          # functions of nodes, which are looked at by themselves
        self.modular = True

    # -- the file
    def root(self, eng): return eng.app("root", self.file)

    def flen(self, eng): return eng.app("nend", self.root(eng))

    def demand(self, eng, st, what, good, fn=None):
        if eng.quiet: return
        fn = getattr(fn, "path", fn)
        k = (what, fn or (eng.stack[-1].path if eng.stack else "?"))
        self.need[k] = self.need.get(k, True) and bool(good)

    def le(self, eng, st, a, b): return eng.holds(st, L.add(aff(b), aff(a), -1))

    def inside(self, eng, st, lo, hi, n):
        """is [lo, hi) inside the node?"""
        a, b = self.bounds(eng, st, n)
        return self.le(eng, st, a, lo) and self.le(eng, st, lo, hi) and self.le(eng, st, hi, b)

    def fact(self, eng, st, a, b): eng.addfact(st, L.add(aff(b), aff(a), -1))

    def bounds(self, eng, st, n, depth=0):
        """borders of a node; what is known about where it lies"""
        r = self.root(eng)
        a, b = eng.app("nstart", n) if n != r else const(0), eng.app("nend", n)
        self.borders |= {a, b}
        self.fact(eng, st, a, b)
        if n == r: return a, b
        self.fact(eng, st, const(0), a)
        self.fact(eng, st, b, eng.app("nend", r))
        if depth < 8:
            for m, up in self.near(eng, n):
                c, d = self.bounds(eng, st, m, depth + 1)
                for x, y in ((a, c), (d, b)) if up else ((c, a), (b, d)): self.fact(eng, st, x, y)
        for lo, hi in self.covers(eng, n): self.fact(eng, st, a, lo); self.fact(eng, st, hi, b)
        return a, b

    def near(self, eng, n):
        """(other node, whether this one contains it)"""
        x = eng.struct(n) if n[0] == "s" else None
        if not x: return
        if x[0] == "elem":
            y = eng.struct(x[1]) if x[1][0] == "s" else None
            if y and y[0] == "app":
                if y[1] == "children": yield y[2], False
                if y[1] == "ancestors": yield y[2], True
        if x[0] == "app" and x[1] == "parent": yield x[2], True
        if x[0] == "app" and x[1] == "node":
            y = eng.struct(x[2]) if x[2][0] == "s" else None
            if y and y[0] == "f":
                z = eng.struct(("s", y[3][1])) if y[3][0] == "T" else None
                if z and z[0] == "app" and z[1].startswith(SEARCH + "ast::ancestor<"): yield z[2], True
            if y and y[0] == "app" and y[1].startswith(SEARCH + "ast::ancestor_exn"): yield y[2], True
            if x[2] in self.parts: yield self.nodeof(eng, self.parts[x[2]]), False
        if x[0] == "app" and x[1] == "leaf": yield x[2], False

    def peel(self, eng, a):
        """the node an element of the syntax tree was made from"""
        x = eng.struct(a) if a[0] == "s" else None
        return x[2] if x and x[0] == "app" and x[1].startswith("as:") else None

    def nodeof(self, eng, a): return self.peel(eng, a) or eng.app("node", a)

    def climb(self, eng, st, n, t):
        """the element of type t that the node is a part of"""
        for _ in range(6):
            x = eng.struct(n) if n[0] == "s" else None
            if not x or x[0] != "app" or x[1] != "node" or x[2] not in self.parts: return None
            up = self.parts[x[2]]
            y = eng.struct(up) if up[0] == "s" else None
            n = self.nodeof(eng, up)
            if y and y[0] == "app" and y[1] == "as:" + t and eng.decide(st, eng.app("is:" + t, n)) is True: return up
        return None

    def ancestor(self, eng, st, name, args, call):
        n = self.strof(eng, st, val(eng, st, args[0]))
        want = [tyname(t) for t in call["targs"] if t["k"] == "adt"]
        if len(want) == 1 and self.climb(eng, st, n, want[0].split("::")[-1]) is not None:
            self.lost.append((want[0].split("::")[-1], True)); return
        ActCk.ancestor(self, eng, st, name, args, call)

    def covers(self, eng, n):
        x = eng.struct(n) if n[0] == "s" else None
        if x and x[0] == "app" and x[1] == "covering": yield x[3], x[4]
        if x and x[0] == "app" and x[1] == "leaf": yield x[3], x[3]

    def rangeof(self, eng, st, n):
        ActCk.rangeof(self, eng, st, n)
        return self.mkrange(eng, *self.bounds(eng, st, n))

    def rng(self, eng, v):
        return tuple(eng.fld(v, fidx(eng.F, RANGE, k), k, "", RANGE) for k in ("start", "end"))

    # -- texts
    def mktext(self, eng, lo, hi):
        v = [None, None]
        v[fidx(eng.F, TEXT, "owned")] = eng.app("ftext", self.file)
        v[fidx(eng.F, TEXT, "range")] = self.mkrange(eng, lo, hi)
        return ("adt", TEXT, 0, tuple(v))

    def mkrange(self, eng, lo, hi):
        v = [None, None]
        v[fidx(eng.F, RANGE, "start")], v[fidx(eng.F, RANGE, "end")] = lo, hi
        return ("adt", RANGE, 0, tuple(v))

    def border(self, eng, x):
        """is the offset between two characters of the file?"""
        x = aff(x)
        if x == aff(const(0)): return True
        if x is None or x[1] or any(c != 1 for _, c in x[0]): return False
        vs = [("s", t) for t, _ in x[0]]
        if len(vs) == 1 and vs[0] in self.borders: return True
        # the start of a text plus where something was found in it
        for v in vs:
            y = eng.struct(v)
            if y and y[0] == "app" and y[1] == "found":
                rest = L.add(x, aff(v), -1)
                if rest == aff(y[3]) and self.border(eng, y[3]): return True
        return False

    def used(self, eng, st, t):
        """the text is looked at"""
        lo, hi = self.rng(eng, eng.fld(t, fidx(eng.F, TEXT, "range"), "range", "", TEXT))
        good = self.le(eng, st, const(0), lo) and self.le(eng, st, lo, hi) and self.le(eng, st, hi, self.flen(eng))
        self.demand(eng, st, "texts are parts of the file", good)
        self.demand(eng, st, "texts begin and end between characters", self.border(eng, lo) and self.border(eng, hi))
        return lo, hi

    # -- calls
    def thefile(self, eng, v):
        if v == self.file: return True
        x = eng.struct(v) if v[0] == "s" else None
        return v[0] == "s" and not (x and x[0] == "app" and x[1].split("::")[-1] in ("edit", "parse", "reparse", "new"))

    def intercept(self, eng, st, name, args, call):
        m, tr = call["method"], call["trait"]
        if "{closure" in name and name not in self.entries: return None
        if name in self.entries:
            a = [self.strof(eng, st, val(eng, st, x)) for x in args]
            if len(a) == 2 and a[1][0] == "tup": a = list(a[1][1])
            for x in a:
                x = self.strof(eng, st, x)
                r = self.rng(eng, x) if x[0] == "adt" and x[1] == RANGE else (x, x) if x in self.borders else None
                if r: self.demand(eng, st, "actions are asked about parts of the file", self.inside(eng, st, r[0], r[1], self.root(eng)))
            if not any(x in self.borders or x[0] == "adt" and x[1] == RANGE for x in a): self.demand(eng, st, "actions are asked about the selection", False)
            return ActCk.intercept(self, eng, st, name, args, call)
        if name.startswith(FILE + "::"):
            f = self.strof(eng, st, val(eng, st, args[0])) if args else None
            if m in ("root", "text", "language"):
                if not self.thefile(eng, f): raise CheckError("a file that is not the editor's: %s" % eng.show(f))
                if m == "root": return [(st, self.root(eng))]
                if m == "text":
                    self.bounds(eng, st, self.root(eng))
                    return [(st, self.mktext(eng, *self.bounds(eng, st, self.root(eng))))]
                return [(st, eng.app("language", self.file))]
        if name == NODE + "::file": return [(st, self.file)]
        if name == NODE + "::text":
            n = val(eng, st, args[0])
            return [(st, self.mktext(eng, *self.bounds(eng, st, self.strof(eng, st, n))))]
        if name.startswith((TEXT + "::", "<" + TEXT)):
            if m in ("slice", "len", "is_empty", "clone"):
                return None
            a = [self.strof(eng, st, val(eng, st, x)) for x in args]
            ts = [x for x in a if x[0] == "adt" and x[1] == TEXT]
            if not ts: return ActCk.intercept(self, eng, st, name, args, call) if m in ("eq", "ne", "cmp", "partial_cmp") else [(st, eng.app("text:" + m, *a))]
            for t in ts: lo, hi = self.used(eng, st, t)
            if m in ("find", "rfind"):
                f = eng.app("found", eng.app(m, *a), lo)
                outs = []
                for s2, b in eng.fork(st, eng.app("has:" + m, *a)):
                    if b:
                        need = len(a[1][1].encode()) if a[1][0] == "str" else 0
                        self.fact(eng, s2, const(0), f)
                        eng.addfact(s2, L.shift(L.add(L.add(aff(hi), aff(lo), -1), aff(f), -1), -need))
                    outs.append((s2, some(f) if b else NONE))
                return outs
            if m == "trim":
                x, y = eng.app("trimstart", *a), eng.app("trimend", *a)
                self.borders |= {x, y}
                for p, q in ((lo, x), (x, y), (y, hi)): self.fact(eng, st, p, q)
                return [(st, self.mktext(eng, x, y))]
            if m == "eq": return self.texteq(eng, st, args[0], args[1])
            if m == "ne": return [(s, eng.notv(v)) for s, v in self.texteq(eng, st, args[0], args[1])]
            return [(st, eng.app("text:" + m, *a))]
        if name in (SEARCH + "find_leaf_at_offset", SEARCH + "ast::node_at_offset"):
            n, x = self.strof(eng, st, val(eng, st, args[0])), val(eng, st, args[1])
            self.demand(eng, st, "leaves are looked for at offsets inside the node", self.inside(eng, st, x, x, n))
            if m == "node_at_offset": return ActCk.intercept(self, eng, st, name, args, call)
            return self.leaves(eng, st, n, x)
        if name == SEARCH + "ancestors":
            xs = eng.app("ancestors", self.strof(eng, st, val(eng, st, args[0])))
            eng.addfact(st, L.shift(aff(num(eng.seqlen(xs))), -1))
            return [(st, self.items(eng, st, xs))]
        if name == SEARCH + "find_covering_node":
            n, (lo, hi) = self.strof(eng, st, val(eng, st, args[0])), self.rng(eng, val(eng, st, args[1]))
            self.demand(eng, st, "covering nodes are looked for ranges inside the node", self.inside(eng, st, lo, hi, n))
            return [(st, eng.app("covering", n, lo, hi))]
        if name.startswith((LEAVES, "<" + LEAVES)): return None
        if name.startswith("fall_tree::visitor::"): return self.visitors(eng, st, name, args, call)
        if name == FE + "::replace_substring":
            lo, hi = self.rng(eng, val(eng, st, args[1]))
            self.demand(eng, st, "edits replace parts of the file", self.inside(eng, st, lo, hi, self.root(eng)))
            self.demand(eng, st, "edits begin and end between characters", self.border(eng, lo) and self.border(eng, hi))
        if m == "node" and (tr == ASTNODE or name.startswith(SYNS)):
            a = self.strof(eng, st, val(eng, st, args[0]))
            x = eng.struct(a) if a[0] == "s" else None
            if x and x[0] == "app" and x[1].startswith("as:"): return [(st, x[2])]
            t = tyname(call["aty"][0]) if call["aty"] else None
            if self.S.only_root(t): return [(st, self.root(eng))]
        if name.startswith("<alloc::string::String as core::ops::index::Index") or name.startswith("<str as core::ops::index::Index"):
            self.demand(eng, st, "strings are not cut at computed places", False)
        if name in (SEARCH + "ast::ancestor", SEARCH + "ast::ancestor_exn"):
            n = self.strof(eng, st, val(eng, st, args[0]))
            want = [tyname(t).split("::")[-1] for t in call["targs"] if t["k"] == "adt"]
            up = self.climb(eng, st, n, want[0]) if len(want) == 1 else None
            if up is not None:
                # the part itself is not an element of that type
                x = eng.struct(n)
                if self.parts[x[2]] == up and self.S.disjoint(eng.struct(x[2])[1], want[0], self.partty.get(x[2])):
                    return [(st, up if m == "ancestor_exn" else some(up))]
        if self.modular and self.S.ofnodes(name) and eng.stack and eng.stack[0].path != name:
            a = [self.strof(eng, st, val(eng, st, x)) for x in args]
            self.alone[name] = True
            return [(st, eng.app(name, *[eng.snap(st, x) for x in a]))]
        r = ActCk.intercept(self, eng, st, name, args, call)
        if r is not None and name in (SEARCH + "ast::ancestor", SEARCH + "ast::ancestor_exn", SEARCH + "ast::node_at_offset") and len(r) == 1:
            t = next((tyname(t) for t in call["targs"] if t["k"] == "adt"), None)
            if self.S.below_root(t): self.found.append((t, eng.fld(r[0][1], 0, "0", "Some", "core::option::Option") if m != "ancestor_exn" else r[0][1], r[0][1] if m != "ancestor_exn" else None))
        if r is not None and len(args) == 1 and name.startswith(SYNS) and "AstChildren" in call["dty"]["s"] and self.S.only_root(tyname(call["aty"][0])):
            for s2, v in r:
                v = self.unwrapped(eng, s2, v)
                t = re.search(r"AstChildren<'?\w*,? ?([\w:]+)", call["dty"]["s"])
                t = canon(t.group(1)) if t else None
                if v and self.S.below_root(t):
                    self.lists[v] = t
                    c = self.member(s2, t)
                    if c: self.place(eng, s2, v, c, const(0))
        if r is not None and len(r) == 1 and len(args) == 1 and name.startswith(SYNS) and m != "node" and r[0][1][0] == "s" and call["aty"] and self.S.down(name, tyname(call["aty"][0])):
            a = self.strof(eng, st, val(eng, st, args[0]))
            t = tyname(call["dty"])
            for v in (r[0][1], eng.fld(r[0][1], 0, "0", "Some", "core::option::Option") if "option::Option" in call["dty"]["s"] else r[0][1]):
                self.parts[v] = a
                self.partty[v] = t
        return r

    def slice(self, eng, st, args): return None

    def on_push(self, eng, st, ref, item, fn):
        ActCk.on_push(self, eng, st, ref, item, fn)
        for r in ranges(self.S, st, self.strof(eng, st, item)):
            lo, hi = self.rng(eng, r)
            self.demand(eng, st, "answers are ranges of the file", self.inside(eng, st, lo, hi, self.root(eng)), fn)

    def unwrapped(self, eng, st, v):
        """the list an iterator goes through"""
        for _ in range(5):
            if v[0] in ("ref", "rv"): v = eng.load(st, v)
            elif v[0] == "adt" and v[1] == "models::VecIter": v = v[3][0]
        return v if v[0] == "s" else None

    # -- an element that is known to be in a list is come across
    def member(self, st, t): return next((e for u, e, o in self.found if u == t and (o is None or st.vars.get(o[1]) == 1)), None)

    def place(self, eng, st, xs, c, upto):
        at = eng.app("place", xs, c)
        st.mem[("G", "upto")] = upto
        st.mem[("G", "place")] = at
        self.fact(eng, st, const(0), at)
        eng.addfact(st, L.shift(L.add(aff(num(eng.seqlen(xs))), aff(at), -1), -1))
        return at

    def on_result(self, eng, call, args, outs):
        ActCk.on_result(self, eng, call, args, outs)
        if call["method"] != "next" or not self.lists: return
        new = []
        for st, v in outs:
            x = None
            if v[0] == "adt" and v[1] == OPTION and v[2] == 1 and v[3][0][0] == "s": x = eng.struct(v[3][0])
            xs = x[1] if x and x[0] == "elem" else None
            t = self.lists.get(xs)
            c = self.member(st, t) if t else None
            if c is None: new.append((st, v)); continue
            at = self.place(eng, st, xs, c, num(L.shift(aff(x[2]), 1)))
            for s2, b in eng.fork(st, eng.cmp("Eq", at, x[2])):
                if b: new.append((s2, some(c)))
                else:
                    for s3, d in eng.fork(s2, eng.cmp("Lt", x[2], at)): new.append((s3, v))
        outs[:] = new

    def invariants(self, eng, st):
        out = list(ActCk.invariants(self, eng, st) or ())
        a, u = st.mem.get(("G", "place")), st.mem.get(("G", "upto"))
        if a is not None and u is not None and aff(a) is not None and aff(u) is not None: out.append(L.add(aff(a), aff(u), -1))
        return out

    # -- visitors (C16): every visitor whose kind the node has is called, in the order they were added
    def visitors(self, eng, st, name, args, call):
        m = call["method"]
        if m == "visitor": return [(st, ("adt", "Visitors", 0, (args[0], ("tup", ()))))]
        if m == "new" or m == "do_visit": raise CheckError("cannot follow %s of visitors" % m)
        if m in ("visit", "visit_nodes"):
            v = self.strof(eng, st, args[0])
            if v[0] != "adt" or v[1] != "Visitors": raise CheckError("visitors of unknown origin")
            if m == "visit":
                t = next((self.targ(t) for t in call["targs"] if t["k"] == "param" or tyname(t) in self.S.W), None)
                if t is None: raise CheckError("a visitor of unknown kind")
                what = ("str", t)
            else: what = eng.snap(st, args[1])
            return [(st, ("adt", "Visitors", 0, (v[3][0], ("tup", v[3][1][1] + (("tup", (what, args[2] if m == "visit_nodes" else args[1])),)))))]
        v, n = self.strof(eng, st, args[1]), self.strof(eng, st, val(eng, st, args[0]))
        if v[0] != "adt" or v[1] != "Visitors": raise CheckError("visitors of unknown origin")
        cell = eng.fresh("ctx")
        s = st.copy()
        s.mem[("D", cell[1])] = v[3][0]
        todo = [s]
        for w in v[3][1][1]:
            what, clo = w[1]
            nxt = []
            for s in todo:
                if what[0] == "str": conds = [(s2, b, self.element(eng, what[1], n)) for s2, b in self.isa(eng, s, what[1], n)]
                else:
                    conds = []
                    for s2, r in self.intercept(eng, s, "core::slice::contains", [what, eng.app("ty", n)], call):
                        conds += [(s3, b, n) for s3, b in eng.fork(s2, r)]
                for s2, b, x in conds:
                    if not b: nxt.append(s2); continue
                    old = set(s2.mem)
                    for s3, _ in eng.call_closure(s2, clo, [x, cell], call):
                        for k in [k for k in s3.mem if k not in old and k[0] == "L" and k[1] == 0]: del s3.mem[k]
                        nxt.append(s3)
            todo = nxt
        outs = []
        for s in todo:
            r = s.mem.pop(("D", cell[1]))
            outs.append((s, r))
        return outs

    def element(self, eng, t, n): return eng.app("as:" + t, n)

    def isa(self, eng, st, t, n):
        c = eng.app("is:" + t, n)
        if eng.decide(st, c) is None:
            K = self.S.bykind(t)
            if K is not None:
                for u, L_ in self.S.short.items():
                    if u != t and eng.decide(st, eng.app("is:" + u, n)) is True and L_ is not None and not L_ & K: return [(st, False)]
        return eng.fork(st, c)

    def leaves(self, eng, st, n, x):
        one, l, r = (eng.app("leaf", n, x, ("str", k)) for k in ("single", "left", "right"))
        k = eng.app("leaves", n, x)
        outs = []
        for s2, b in eng.fork(st, eng.app("nonempty", n)):
            if not b: outs.append((s2, ("adt", LEAVES, vidx(eng.F, LEAVES, "None"), ()))); continue
            for s3, c in eng.fork(s2, eng.app("between", n, x)):
                if not c:
                    self.bounds(eng, s3, one)
                    eng.addfact(s3, L.shift(L.add(aff(eng.app("nend", one)), aff(eng.app("nstart", one)), -1), -1))
                    outs.append((s3, ("adt", LEAVES, vidx(eng.F, LEAVES, "Single"), (one,))))
                else:
                    for y in (l, r):
                        self.bounds(eng, s3, y)
                        eng.addfact(s3, L.shift(L.add(aff(eng.app("nend", y)), aff(eng.app("nstart", y)), -1), -1))
                    self.fact(eng, s3, eng.app("nend", l), x); self.fact(eng, s3, x, eng.app("nstart", r))
                    outs.append((s3, ("adt", LEAVES, vidx(eng.F, LEAVES, "Between"), (l, r))))
        return outs


def positional(fn):
    ks = []
    for ty, n in fn.locals[1:fn.argc + 1]:
        if ty["k"] == "adt" and canon(ty["def"]) in (UNIT_, RANGE): ks.append(canon(ty["def"]))
        else: ks.append(None)
    return ks if any(ks) else None


def entries_of(S):
    """every public function of the editors that takes an offset or a range"""
    F = S.F
    impls = [i for i in F.impls if i["trait"] and canon(i["trait"]) == EFI]
    if not impls: raise CheckError("anchor missing: editors")
    selfs = {canon(i["self"]) for i in impls}
    out = {}
    for p, fn in sorted(F.fns.items()):
        if fn.kind != "fn" or not positional(fn): continue
        me = fn.locals[1][0]
        while me["k"] == "ref": me = me["to"]
        own = canon(me["def"]) if me["k"] == "adt" else None
        if p.rsplit("::", 1)[0] == EFI or fn.impl_trait and canon(fn.impl_trait) == EFI or own in selfs and fn.vis == "Public": out[p] = fn
    return out, selfs


def setup(S, fn, known=(), ck=None):
    """arguments of a query: any file, any offset or range inside it"""
    b = S.bench() if ck is None else bench(S, ck)
    e, ck = b.eng, b.ck
    ck.entries = known
    ck.file = e.fresh("file")
    st = b.st
    ck.bounds(e, st, ck.root(e))
    n = ck.flen(e)
    args, sel = [], None
    for ty, nm in fn.locals[1:fn.argc + 1]:
        d = ty
        while d["k"] == "ref": d = d["to"]
        d = canon(d["def"]) if d["k"] == "adt" else None
        if d == UNIT_:
            x = e.fresh(nm or "offset")
            ck.borders.add(x)
            ck.fact(e, st, const(0), x); ck.fact(e, st, x, n)
            sel = (x, x)
        elif d == RANGE:
            lo, hi = e.fresh("start"), e.fresh("end")
            ck.borders |= {lo, hi}
            for p, q in ((const(0), lo), (lo, hi), (hi, n)): ck.fact(e, st, p, q)
            sel = (lo, hi)
            x = ck.mkrange(e, lo, hi)
        elif d == FILE: x = ck.file
        elif ty["k"] == "closure": x = ("clo", fn.path, ())
        else: x = e.fresh(nm or "a")
        args.append(b.cell(x) if ty["k"] == "ref" and x[0] != "s" else x)
    ck.sel = sel
    return b, args, sel


def bench(S, ck=None):
    b = Bench(S.F, S.M, ck or PosCk(S))
    b.eng.unroll = True
    b.k = b.ck
    return b


class Position(Actions):
    def __init__(self, F, M, rep, ctx):
        Actions.__init__(self, F, M, rep, ctx)
        self.prop = "C23"

        self.short = {}
        for ty in self.W:
            syn = self.syn.get(ty.split("::")[0])
            if syn is None: continue
            nm = ty.split("::")[-1]
            k = frozenset((syn.crate, x) for x in self.kinds(ty, syn))
            self.short[nm] = self.short[nm] | k if nm in self.short else k

    def bykind(self, t): return self.short.get(t)

    def disjoint(self, _, t, u):
        if u is None or u not in self.W: return False
        return not self.short[t] & self.short[u.split("::")[-1]]

    # -- what the grammar says about where kinds occur
    def above(self, syn, T):
        """table numbers of the kinds that nodes of kind T may be children of; None: no parent needed"""
        g = syn.g
        R = g.reptypes()
        if not hasattr(syn, "emits"):
            E = syn.emits = {s: frozenset() for s in g.S}
            ch = True
            while ch:
                ch = False
                for s, c in g.S.items():
                    k, v = g.op(s[0])
                    if k == "Pub": n = {v["ty"]} | (R if v["replaceable"] else set())
                    elif k == "Token": n = {v}
                    elif k == "ContextualToken": n = {v[0]}
                    else:
                        n = set().union(*[E[x] for x in c])
                        if k == "Pratt": n |= {p["ty"] for p in v["prefixes"] + v["infixes"]}
                        if k == "PubReplace": n |= {v["ty"]}
                        if k == "Any": n |= {None}
                    n = frozenset(n) | E[s]
                    if n != E[s]: E[s] = n; ch = True
        E, out = syn.emits, set()
        for s, c in g.S.items():
            k, v = g.op(s[0])
            if k == "Pub" and any(T in E[x] for x in c): out |= {v["ty"]} | (R if v["replaceable"] else set())
            if k == "Pratt" and T in E[s]: out |= {p["ty"] for p in v["prefixes"] + v["infixes"]}
        return out

    def placed(self, ty):
        """(kinds of the type, kinds above them) by table number, for types of nodes that rules make"""
        key = ("placed", ty)
        if key not in self.memo:
            self.memo[key] = None
            syn = self.syn.get((ty or "").split("::")[0])
            if syn is not None and ty in self.W and syn.good:
                K = {syn.idx[k] for k in self.kinds(ty, syn)}
                made = {v["ty"] for s in syn.g.S for k, v in [syn.g.op(s[0])] if k == "Pub" and not v["replaceable"]}
                if K and K <= made: self.memo[key] = (syn, K, set().union(*[self.above(syn, t) for t in K]))
        return self.memo[key]

    def only_root(self, ty):
        """is the only node of the type the root of the file?"""
        r = self.placed(ty)
        if r is None: return False
        syn, K, up = r
        k, v = syn.g.op(syn.g.state(0, {})[0])
        return not up and k == "Pub" and K == {v["ty"]}

    def below_root(self, ty):
        """are all nodes of the type children of the root?"""
        r = self.placed(ty)
        if r is None: return False
        syn, K, up = r
        k, v = syn.g.op(syn.g.state(0, {})[0])
        return k == "Pub" and up == {v["ty"]} and v["ty"] not in K and not self.above(syn, v["ty"])

    def ofnodes(self, name):
        """does the function only take nodes, and answer with something of the editor's own?"""
        fn = self.F.fns.get(name)
        if fn is None or fn.kind != "fn" or name in self.F.dups or fn.crate not in ("lang_fall", "lang_rust", "fall_editor"): return False
        if name not in self.memo:
            good, some_ = True, False
            for ty, _ in fn.locals[1:fn.argc + 1]:
                while ty["k"] == "ref": ty = ty["to"]
                d = canon(ty["def"]) if ty["k"] == "adt" else "?"
                if d == NODE or d in self.W: some_ = True
                elif d != "lang_fall::analysis::Analysis" and d != FILE: good = False
            t = canon(fn.locals[0][0]["s"])
            if t.startswith("core::option::Option<"): t = t[len("core::option::Option<"):]
            self.memo[name] = good and some_ and t.startswith(("lang_fall::editor", "lang_rust::editor", "fall_editor::"))
        return self.memo[name]

    def down(self, name, ty):
        """does the accessor answer with a child of the element, or with nothing?"""
        fn = self.F.fns.get(name)
        if fn is None or fn.argc != 1 or ty not in self.W or ty.split("::")[0] not in self.syn: return False
        key = ("down", name, ty)
        if key not in self.memo:
            self.memo[key] = False
            syn = self.syn[ty.split("::")[0]]
            self.memo[key] = all(self.down1(fn, ty, k) for k in syn.lang.kinds)
        return self.memo[key]

    def down1(self, fn, ty, k):
        ck = AcCk(())
        ck.W = self.W
        ck.accept_ = lambda t: self.kinds(t, self.syn[t.split("::")[0]])
        b = Bench(self.F, self.M, ck)
        e = b.eng; e.unroll = True
        node, c = e.fresh("node"), e.fresh("child")
        ck.node = node
        ck.kids = ((k, c),)
        a = ("adt", ty, 0, (node,))
        try: outs = [(s, v) for s, v in e.run(fn, [b.cell(a) if fn.locals[1][0]["k"] == "ref" else a], b.st) if feasible(s)]
        except (CheckError, TooComplex, Unsupported): return False
        self.ctx.account(e)
        for s, v in outs:
            if v[0] == "adt" and v[1] == "core::option::Option":
                if v[2] == 0: continue
                v = v[3][0]
            while v[0] == "adt" and len(v[3]) == 1: v = v[3][0]
            x = e.struct(v) if v[0] == "s" else None
            if v != c and not (x and x[0] == "app" and x[1].startswith("as:") and x[2] == c): return False
        return True

    def bench(self): return bench(self)


def ranges(S, st, v, depth=0):
    """ranges in an answer"""
    if v[0] == "adt" and v[1] == RANGE: yield v
    elif v[0] in ("adt", "tup") and depth < 4:
        for x in (v[3] if v[0] == "adt" else v[1]): yield from ranges(S, st, x, depth + 1)


def query(S, path, fn, known, what):
    """one function, for every file and position"""
    w = "%s %s" % (what, "::".join(strip_ty(x) for x in path.split("::")[-2:]))
    b, args, sel = setup(S, fn, known)
    e, ck = b.eng, b.ck
    outs = [(s, v) for s, v in e.run(fn, args, b.st) if feasible(s)]
    S.ctx.count("queries")
    S.ctx.count("paths", len(outs))
    S.ok(w, "answers", bool(outs), "outs", "never answers")
    for st, v in outs:
        for r in ranges(S, st, v):
            lo, hi = ck.rng(e, r)
            S.ok(w, "answers with ranges of the file", ck.inside(e, st, lo, hi, ck.root(e)), "range", "may answer with a range that is inverted or leaves the file")
            if path.endswith("::extend_selection") and sel[0] != sel[1] and not e.holds(st, L.add(aff(sel[0]), aff(sel[1]), -1)):
                grows = ck.le(e, st, lo, sel[0]) and ck.le(e, st, sel[1], hi)
                S.ok(w, "an extended selection contains the old one", grows, "contains", "may answer with a range that does not contain the selection")
                same = st.copy()
                for x, y in ((lo, sel[0]), (hi, sel[1])): ck.fact(e, same, x, y); ck.fact(e, same, y, x)
                S.ok(w, "an extended selection is larger", not feasible(same), "larger", "may answer with the selection itself")
        if "Reference" in str(fn.locals[0][0]["s"]): resolvers(S, w, b, args, fn, st, v)
    for (k, p), good in sorted(ck.need.items()): S.ok(w, "%s (%s)" % (k, p), good, "need:%s:%s" % (k, p.split("::")[-1] if "{" not in p else p), "%s: not so in %s" % (k, p))
    for t, good in ck.lost: S.ok(w, "stands inside a %s" % t, good, "ancestor:%s" % t, "takes for granted that there is an enclosing %s" % t)
    ps = [p for p in ck.panics if feasible(p[0])]
    S.ok(w, "does not fail", not ps, "panic", lambda: "%s may panic: %s in %s" % (w, ps[0][2], ps[0][1]))
    for (p, kind, c), good in ck.asserts.items(): S.ok(w, "in range", good, "assert:%s:%s" % (kind, p), "%s in %s is not proved" % (kind, p))
    S.ctx.account(e)
    return set(ck.alone)


def resolvers(S, w, b, args, fn, st, v):
    """a reference carries the function that resolves it: it is called with the reference's node"""
    e, ck = b.eng, b.ck
    is_some, x = opt(st, v)
    S.ok(w, "answers with a reference or nothing", is_some is not None, "undecided", "answers with neither")
    if not is_some: return
    x = ck.strof(e, st, x)
    fs = [f for f in x[3] if f[0] in ("clo", "fn")] if x[0] == "adt" else []
    ns = [f for f in x[3] if f[0] not in ("clo", "fn")] if x[0] == "adt" else []
    S.ok(w, "references say how they are resolved", len(fs) == 1 and len(ns) == 1, "resolver", "answers with a reference that cannot be followed")
    if len(fs) != 1 or len(ns) != 1: return
    S.ctx.count("kinds of references")
    call = {"name": "<call>", "method": "", "trait": None, "rkind": "", "targs": [], "aty": [], "dty": fn.locals[0][0], "fn": fn, "span": None, "diverges": False, "resolved": False}
    outs = [s for s, _ in e.call_value(st.copy(), fs[0], [e.fresh("analysis") if fn.argc < 2 else args[0], ns[0]], call) if feasible(s)]
    S.ok(w, "references can be resolved", bool(outs), "resolve", "answers with a reference that can never be resolved")


def analyse(F, M, rep, ctx):
    S = Position(F, M, rep, ctx)
    known = tables(S)
    ents, selfs = entries_of(S)
    for s in sorted(selfs):
        if not any(s.split("::")[-1] in str(f.locals[1][0]["s"]) for f in ents.values()): raise CheckError("anchor missing: queries of %s" % s)
    todo = [(p, fn, known, "query") for p, fn in ents.items()] + [(p, F.fn(p), (), "action") for p in sorted(known)]
    done = set()
    while todo:
        p, fn, k, what = todo.pop(0)
        if p in done: continue
        done.add(p)
        for q in sorted(query(S, p, fn, k, what)): todo.append((q, F.fn(q), (), "helper"))
