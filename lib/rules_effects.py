"""C32: what the context actions ask of the edit, for an arbitrary file and selection, against what each action promises; what
extending the selection answers."""
from rules_format import *
import ast as pyast
import re

SEARCH = "fall_tree::search::"
STR = "Str"
SAME = ("to_string", "to_owned", "into", "from", "as_str", "deref", "clone", "to_cow", "into_owned", "as_ref", "borrow", "as_text", "must_use", "into_boxed_str", "into_string", "as_mut_str", "to_str")


def pieces(e, ck, st, x):
    """a text as a list of constants and texts of the file"""
    x = ck.strof(e, st, x)
    for _ in range(6):
        if x[0] in ("ref", "rv"): x = ck.strof(e, st, x); continue
        y = e.struct(x) if x[0] == "s" else None
        if y and y[0] == "*v": x = y[1]; continue
        break
    if x[0] == "adt" and x[1] == STR: return x[3][0][1]
    if x[0] == "str": return (x,) if x[1] else ()
    if x[0] == "c" or x[0] == "i": return (("str", chr(x[2])),)if x[0] == "i" and not x[1] else (x,)
    return (x,)


def cat(*lists):
    out = []
    for l in lists:
        for p in l:
            if p[0] == "str" and out and out[-1][0] == "str": out[-1] = ("str", out[-1][1] + p[1])
            elif p != ("str", ""): out.append(p)
    return ("adt", STR, 0, (("tup", tuple(out)),))


def template(pp):
    """literal pieces and numbers of arguments in the encoded form of a format string; None if it has options"""
    b = pyast.literal_eval(pp)
    out, i, nxt = [], 0, 0
    while i < len(b):
        c = b[i]; i += 1
        if c == 0: return out
        if c < 0x80: out.append(b[i:i + c].decode()); i += c
        elif c == 0x80:
            n = b[i] | b[i + 1] << 8
            out.append(b[i + 2:i + 2 + n].decode()); i += 2 + n
        elif c == 0xC0: out.append(nxt); nxt += 1
        elif c == 0xC8:      # an argument by number
            n = b[i] | b[i + 1] << 8
            i += 2
            out.append(n); nxt = n + 1
        else: return None
    return None


def istext(t):
    while t and t["k"] in ("ref", "ptr"): t = t["to"]
    return bool(t) and (t["s"].startswith(("fall_text::text::Text", "fall_text::Text", "alloc::string::String", "alloc::borrow::Cow<'_, str", "alloc::borrow::Cow<str", "str", "Text", "String")) or t["k"] == "str")


def isstring(aty):
    t = aty[0] if aty else None
    while t and t["k"] in ("ref", "ptr"): t = t["to"]
    return bool(t) and t["s"].startswith(("alloc::string::String", "String", "std::string::String"))


class EffCk(ActCk):
    """as for the availability of actions; texts are built piece by piece and requests are recorded"""
    def __init__(self, S):
        ActCk.__init__(self, S)
        self.lists = {}          # lists of a fixed length: name -> number of elements
        self.concrete = False

    def store(self, eng, st, ref, v):
        r = ref
        for _ in range(4):
            x = st.mem.get(("D", r[1])) if r[0] == "s" else None
            y = eng.load(st, r) if r[0] in ("ref", "rv") else None
            if y is not None and y[0] in ("ref",): r = y; continue
            break
        if r[0] == "s": st.mem[("D", r[1])] = v
        else: eng.store(st, r, v)

    def ops(self, st):
        g = self.g(st, "ops")
        return g[3] if g is not None and g[0] == "adt" else ()

    def intercept(self, eng, st, name, args, call):
        m, tr = call["method"], call["trait"]
        if "{closure" in name or name in self.entries: return ActCk.intercept(self, eng, st, name, args, call)
        aty = call["aty"]
        if name in ("core::fmt::rt::Argument::new_display",): return [(st, cat(pieces(eng, self, st, args[0])))]
        if name.startswith("core::fmt::Arguments::"):
            x = self.strof(eng, st, args[0])
            if x[0] == "str": return [(st, x)]
            x = eng.struct(x) if x[0] == "s" else None
            t = template(x[1]) if x and x[0] == "k" and x[1].startswith('b"') else None
            a = self.strof(eng, st, args[1]) if len(args) > 1 else ("arr", ())
            if t is None or a[0] != "arr": raise CheckError("a format that is not understood")
            return [(st, cat(*[(("str", p),) if isinstance(p, str) else pieces(eng, self, st, a[1][p]) for p in t]))]
        if name in ("alloc::fmt::format", "core::hint::must_use") : return [(st, self.strof(eng, st, args[0]))]
        if name.startswith("alloc::string::String::") and m in ("new", "with_capacity") or m == "default" and "String" in name: return [(st, cat())]
        if m in ("push_str", "add_assign", "push", "write_str") and isstring(aty):
            old = pieces(eng, self, st, args[0])
            self.store(eng, st, args[0], cat(old, pieces(eng, self, st, args[-1])))
            return [(st, UNIT if m != "write_str" else ("adt", "core::result::Result", 0, (UNIT,)))]
        if m == "add" and isstring(aty) and len(args) == 2: return [(st, cat(pieces(eng, self, st, args[0]), pieces(eng, self, st, args[1])))]
        if m in ("join", "concat") and args and "String" in call["dty"]["s"]:
            xs = self.strof(eng, st, val(eng, st, args[0]))
            items = [c[1] if c[0] == "it" else None for c in eng.seq(xs)] if xs[0] in ("arr", "seq") else [None]
            if None not in items:
                sep = pieces(eng, self, st, args[1]) if len(args) > 1 else ()
                return [(st, cat(*[y for i, x in enumerate(items) for y in ((sep if i else ()), pieces(eng, self, st, x))]))]
        if m in SAME and len(args) == 1 and aty and (istext(aty[0]) or istext(call["dty"])) and not name.startswith(SYNS):
            return [(st, self.strof(eng, st, args[0]))]
        if name.startswith(FE + "::") and m not in ("new", "into_text_edit", "clone"):
            a = [self.strof(eng, st, val(eng, st, x)) for x in args]
            r = []
            for x, t in zip(a[1:], aty[1:]):
                r.append(cat(pieces(eng, self, st, x)) if "String" in t["s"] or t["s"].endswith("str") else eng.snap(st, x))
            if m == "replace": m, r = "replace_with_text", [r[0], cat((eng.app("ntext", r[1]),))]
            old = self.g(st, "ops") or MON(0)
            self.s(st, "ops", MON(old[2] + 1, *(old[3] + (("tup", (("str", m), *r)),))))
            return [(st, UNIT)]
        if name == NODE + "::text": return [(st, eng.app("ntext", self.strof(eng, st, val(eng, st, args[0]))))]
        if name == ROOT: return [(st, eng.app("root", self.strof(eng, st, val(eng, st, args[0]))))]
        if name == SIB:
            n, d = self.strof(eng, st, val(eng, st, args[0])), val(eng, st, args[1])
            side = FmtCk.sides(self, eng, st, d)[0][1]
            outs = []
            h = eng.app("sib:" + side, n)
            for s2, b in eng.fork(st, h):
                x = eng.fld(h, 0, "0", "Some", OPTION)
                if b:
                    g = self.g(s2, "near:" + side)
                    on = g is not None and g[0] == "adt" and g[3] and g[3][1] == n and self.wslike(eng, s2, n)
                    # where the way along the neighbours began, and whether that is what the cursor stands at
                    self.s(s2, "near:" + side, MON(g[2] if on else 1 + self.cursor(eng, s2, n), g[3][0] if on else n, x))
                outs.append((s2, some(x) if b else NONE))
            return outs
        if name == SEARCH + "find_leaf_at_offset":
            t, outs = self.leaves(eng), []
            if eng.app(SEARCH + "find_leaf_at_offset<>", *[self.strof(eng, st, val(eng, st, x)) for x in args]) != t: raise CheckError("looks at leaves somewhere else than at the cursor")
            for i, vd in enumerate(eng.F.adts[SEARCH + "LeafAtOffset"]["variants"]):
                for s2, b in eng.fork_variant(st, t, i, 3):
                    if not b: continue
                    ns = tuple(eng.fld(t, j, str(j), vd["name"], SEARCH + "LeafAtOffset") for j in range(len(vd["fields"])))
                    for n in ns:        # the leaves touch the cursor (C17)
                        eng.addfact(s2, L.add(aff(self.at), aff(eng.app("nstart", n)), -1))
                        eng.addfact(s2, L.add(aff(eng.app("nend", n)), aff(self.at), -1))
                    outs.append((s2, ("adt", SEARCH + "LeafAtOffset", i, ns)))
            return outs
        if self.concrete and name == TEXT_ + "::slice":
            t, r = self.strof(eng, st, val(eng, st, args[0])), self.strof(eng, st, val(eng, st, args[1]))
            return [(st, eng.app("piece", t, eng.snap(st, r)))]
        if self.concrete and m in ("contains", "find") and len(args) == 2 and aty and istext(aty[0]) and FmtCk.isnl(self, eng, st, args[1]):
            t = self.strof(eng, st, val(eng, st, args[0]))
            if m == "contains": return [(st, eng.app("newline", t))]
            return [(s2, some(eng.app("newline at", t)) if b else NONE) for s2, b in eng.fork(st, eng.app("newline", t))]
        if m == "skip" and tr == "core::iter::traits::iterator::Iterator" and len(args) == 2:
            it, k = self.strof(eng, st, args[0]), num(aff(val(eng, st, args[1])))
            if it[0] == "adt" and it[1] == "models::VecIter":
                # (a position behind the end gives nothing more, as the end does)
                return [(st, ("adt", it[1], 0, (it[3][0], num(L.add(aff(it[3][1]), aff(k))))))]
        if name == NODE + "::parent":
            n = self.strof(eng, st, val(eng, st, args[0]))
            self.s(st, "child", MON(1 + self.cursor(eng, st, n), n))
        if self.concrete and name == SEARCH + "find_covering_node":
            a = [self.strof(eng, st, val(eng, st, x)) for x in args]
            self.s(st, "grow", MON(0, const(0)))
            return [(st, self.covering(eng, st, *[eng.snap(st, x) for x in a]))]
        if self.concrete and name in (SEARCH + "ancestors", NODE + "::parent"):
            n = self.strof(eng, st, val(eng, st, args[0]))
            k = self.elem(eng, n, "ancestors")
            if k is not None:
                if name == SEARCH + "ancestors": return [(st, madt("VecIter", ("rv", k[0]), k[1]))]
                nxt = num(L.shift(aff(k[1]), 1))
                eng.addfact(st, L.add(aff(num(eng.seqlen(k[0]))), aff(nxt), -1))
                return [(s2, some(eng.index(s2, k[0], nxt)) if b else NONE) for s2, b in eng.fork(st, eng.cmp("Lt", nxt, num(eng.seqlen(k[0]))))]
        if name == SEARCH + "ancestors":
            xs = eng.app("ancestors", self.strof(eng, st, val(eng, st, args[0])))
            self.s(st, "climb", MON(0, const(0)))
            self.s(st, "grow", MON(0, const(0)))
            return [(st, madt("VecIter", ("rv", xs), const(0)))]
        if name == "fall_text::text_range::TextRange::intersects" and len(args) == 2:
            r, q = (self.strof(eng, st, val(eng, st, x)) for x in args)
            if q != self.sel: r, q = q, r
            n = self.nodeof(eng, r)
            k = self.elem(eng, n, "children")
            if q == self.sel and k is not None:
                outs = []
                for s2, b in eng.fork(st, eng.app("hit", n)):
                    g = self.g(s2, "scan")
                    g = MON(0, k[0], const(0)) if g is None or g[0] != "adt" or g[3][0] != k[0] else g
                    if g[2] == 9 or not eqn(eng, s2, g[3][1], k[1]): g = MON(9, k[0], const(0))
                    else:
                        nxt = num(L.shift(aff(k[1]), 1))
                        g = MON(min(g[2] + 1, 2) if b else g[2], k[0], nxt, *((g[3][2] if g[2] else k[1], k[1]) if b else g[3][2:]))
                    self.s(s2, "scan", g)
                    outs.append((s2, TRUE if b else FALSE))
                return outs
        if m in ("eq", "ne") and len(args) == 2 and aty and "TextRange" in aty[0]["s"]:
            a, b = (self.strof(eng, st, val(eng, st, x)) for x in args)
            if a == self.sel: a, b = b, a
            n = self.nodeof(eng, a)
            k = self.elem(eng, n, "ancestors")
            if b == self.sel and k is not None:
                outs = []
                for s2, t in eng.fork(st, eng.app("selected", n)):
                    g = self.g(s2, "grow") or MON(0, const(0))
                    if g[2] == 0: self.s(s2, "grow", MON(9) if not eqn(eng, s2, g[3][0], k[1]) else MON(0, num(L.shift(aff(k[1]), 1))) if t else MON(1, k[1]))
                    outs.append((s2, TRUE if t == (m == "eq") else FALSE))
                return outs
        if m in ("lt", "gt", "le", "ge") and len(args) == 2 and "TextRange" in (aty[0]["s"] if aty else ""):
            a, b = (self.strof(eng, st, val(eng, st, x)) for x in args)
            if m in ("gt", "ge"): a, b = b, a
            outs = []
            for s2, t in eng.fork(st, eng.app("range " + ("lt" if m in ("lt", "gt") else "le"), eng.snap(st, a), eng.snap(st, b))):
                if t and a[0] == "adt" and b[0] == "adt": eng.addfact(s2, L.add(aff(a[3][self.lo]), aff(b[3][self.lo]), -1))
                outs.append((s2, TRUE if t else FALSE))
            return outs
        if m == "wrap" and len(args) == 1:
            n = self.strof(eng, st, val(eng, st, args[0]))
            k, g = self.elem(eng, n, "ancestors"), self.g(st, "climb")
            if k is not None and g is not None and g[0] == "adt" and g[2] in (0, 1):
                t = self.selfty(name, call)
                outs = ActCk.intercept(self, eng, st, name, args, call)
                if outs is None: return None
                for s2, v in outs:
                    if v == NONE and g[2] == 0: self.s(s2, "climb", MON(0, num(L.shift(aff(k[1]), 1))) if eqn(eng, s2, g[3][0], k[1]) else MON(9))
                    elif v != NONE and g[2] == 0: self.s(s2, "climb", MON(1, k[1], ("str", t)) if eqn(eng, s2, g[3][0], k[1]) else MON(9))
                return outs
        return ActCk.intercept(self, eng, st, name, args, call)

    def covering(self, eng, st, root, r):
        """the covering node is the first of those around the range"""
        xs = eng.app("ancestors", eng.app(SEARCH + "find_covering_node<>", root, r))
        eng.addfact(st, L.shift(aff(num(eng.seqlen(xs))), -1))
        return eng.index(st, xs, const(0))

    def items(self, eng, st, seq):
        x = eng.struct(seq)
        k = x[1].split("::")[-1].split("<")[0]
        self.seen.add(k)
        if k in self.lists: seq = ("arr", tuple(eng.app("item:" + x[1], *x[2:], const(i)) for i in range(self.lists[k])))
        return ActCk.items(self, eng, st, seq)

    def elem(self, eng, n, kind):
        """(list, index) of a node that is an element of a list of nodes of some kind"""
        x = eng.struct(n) if n[0] == "s" else None
        y = eng.struct(x[1]) if x and x[0] == "elem" and x[1][0] == "s" else None
        return (x[1], x[2]) if y and y[0] == "app" and y[1] == kind else None

    def nodeof(self, eng, r):
        """the node with this range"""
        if r[0] != "adt" or r[1] != RANGE: return UNIT
        lo, hi = num(aff(r[3][self.lo])), num(aff(r[3][1 - self.lo]))
        x = eng.struct(lo) if lo[0] == "s" else None
        return x[2] if x and x[:2] == ("app", "nstart") and hi == eng.app("nend", x[2]) else UNIT

    def cursor(self, eng, st, n):
        """does the node stand at the cursor?  and what is known of its text and kind"""
        x = eng.struct(n) if n[0] == "s" else None
        at = bool(x) and x[0] == "f" and self.leaves(eng) in (x[-1], ("s",) + tuple(x[-1][1:]))
        comma = self.textof(eng, st, eng.app("ntext", n)) == ","
        pipe = self.pipe is not None and eng.decide(st, eng.cmp("Eq", eng.app("ty", n), self.pipe)) is True
        return 4 * bool(at) + 2 * comma + pipe

    def leaves(self, eng): return eng.app(SEARCH + "find_leaf_at_offset<>", eng.app("root", self.file), self.at)

    def wslike(self, eng, st, n):
        t = eng.app("ty", n)
        for k, b in st.bools.items():
            v = ("s", k) if isinstance(k, int) else k
            x = eng.struct(v) if v[0] == "s" else None
            if not x or x[0] != "f" or x[2] != "whitespace_like": continue
            y = eng.struct(("s", x[3][1])) if x[3][0] == "T" else eng.struct(x[3]) if x[3][0] == "s" else None
            if y and y[0] == "app" and "node_type_info" in y[1] and y[-1] == t: return b
        return None


class Effects(Actions):
    def setup(self, path):
        fn = self.F.fn(path)
        ck = EffCk(self)
        b = Bench(self.F, self.M, ck)
        b.eng.unroll = True
        e = b.eng
        ck.lo = fidx(self.F, RANGE, "start")
        ck.file, ck.sel = e.fresh("file"), e.fresh("selection")
        ck.seen = set()
        ck.pipe = None
        if path.startswith("lang_fall::"):
            ks = [k for k, n in self.syn["lang_fall_syntax"].lang.names.items() if n == "PIPE"]
            ck.pipe = const(ks[0]) if ks else None
        args = [ck.file]
        ck.at = UNIT
        for ty, _ in fn.locals[2:fn.argc] if fn.argc > 2 else []:
            if ty["s"].endswith("TextRange"):
                args.append(("adt", RANGE, 0, tuple(e.fresh(k) for k in ("start", "end"))))
                ck.sel, ck.at = args[-1], args[-1][3][ck.lo]
            else: args.append(e.fresh("offset")); ck.at = args[-1]
        if fn.kind == "closure":
            args = [("clo", path, ())]+ [ck.file] + [("adt", RANGE, 0, tuple(e.fresh(k) for k in ("start", "end")))]
            ck.sel, ck.at = args[-1], args[-1][3][ck.lo]
        args.append(TRUE)
        return fn, b, e, ck, args

    def runs(self, path, lists=None):
        fn, b, e, ck, args = self.setup(path)
        ck.lists = lists or {}
        outs = [(s, v) for s, v in e.run(fn, args, b.st) if feasible(s)]
        res = [(s, ck.ops(s)) for s, v in outs if opt(s, v)[0]]
        self.ctx.account(e)
        self.ctx.count("paths", len(outs))
        return e, ck, res


def field_of(e, x):
    """the optional value this is the content of"""
    y = e.struct(x) if x[0] == "s" else None
    if not y or y[0] != "f" or y[2] != "0": return None
    return ("s", y[3][1]) if y[3][0] == "T" else y[3]


def exchanged(S, w, e, ops):
    """the two nodes that are replaced by the text of each other"""
    if len(ops) == 2 and all(o[1][0] == ("str", "replace_with_text") for o in ops):
        (_, a, t), (_, b, u) = (o[1] for o in ops)
        if a != b and t == cat((e.app("ntext", b),)) and u == cat((e.app("ntext", a),)): return a, b
    return None


def swap(S, path, w):
    e, ck, res = S.runs(path)
    S.ok(w, "does something", bool(res), "never", "never yields an edit")
    for st, ops in res:
        p = exchanged(S, w, e, ops)
        S.ok(w, "exchanges two nodes", p is not None, "exchange", "does not put the texts of two nodes in the place of each other, and nothing else")
        if p is None: continue
        gs = [ck.g(st, "near:" + k) for k in ("Left", "Right")]
        good = all(g is not None and g[0] == "adt" and len(g[3]) == 2 for g in gs) and {gs[0][3][1], gs[1][3][1]} == set(p) and gs[0][3][0] == gs[1][3][0]
        S.ok(w, "the neighbours on both sides are exchanged", good, "sides", "exchanges other nodes than the nearest on both sides of one node")
        S.ok(w, "they stand around a comma at the cursor", good and all((g[2] - 1) & 6 == 6 for g in gs), "comma", "exchanges nodes that do not stand around a comma at the cursor")
        S.ok(w, "blank space is not exchanged", all(ck.wslike(e, st, n) is False for n in p), "blank", "may exchange blank space")
        S.ok(w, "they are of the same kind", e.decide(st, e.cmp("Eq", e.app("ty", p[0]), e.app("ty", p[1]))) is True, "kind", "exchanges nodes of different kinds")


def alternatives(S, path, w):
    e, ck, res = S.runs(path)
    if ck.pipe is None: raise CheckError("anchor missing: PIPE")
    S.ok(w, "does something", bool(res), "never", "never yields an edit")
    for st, ops in res:
        p = exchanged(S, w, e, ops)
        S.ok(w, "exchanges two nodes", p is not None, "exchange", "does not put the texts of two nodes in the place of each other, and nothing else")
        if p is None: continue
        g = ck.g(st, "child")
        at = g is not None and g[0] == "adt" and (g[2] - 1) & 5 == 5
        S.ok(w, "the cursor stands at a bar", at, "bar", "looks at something other than a bar at the cursor")
        if not at: continue
        bar = g[3][0]
        block = e.app("as:BlockExpr", e.app("parent", bar))
        es = []
        for n in p:
            x = e.struct(n)
            y = e.struct(x[2]) if x[:2] == ("app", "node") and x[2][0] == "s" else None
            z = e.struct(y[1]) if y and y[0] == "elem" and y[1][0] == "s" else None
            es.append((y[2], n) if z and z[0] == "app" and z[1].endswith("BlockExpr::alts") and z[2] == block else None)
        S.ok(w, "alternatives of the block of the bar are exchanged", None not in es, "block", "exchanges something other than alternatives of the block that the bar stands in")
        if None in es: continue
        (i, a), (j, b) = es
        if eqn(e, st, i, num(L.shift(aff(j), 1))): (i, a), (j, b) = (j, b), (i, a)
        S.ok(w, "they follow each other", eqn(e, st, j, num(L.shift(aff(i), 1))), "next", "exchanges alternatives that do not follow each other")
        f = lambda n: aff(e.app("nstart", n))
        S.ok(w, "they stand around the bar", e.holds(st, L.add(f(a), f(bar), -1)) and e.holds(st, L.add(f(bar), f(b), -1)), "around", "exchanges alternatives that do not stand on both sides of the bar")


def extract(S, path, w):
    e, ck, res = S.runs(path)
    S.ok(w, "does something", bool(res), "never", "never yields an edit")
    seen = set()
    for st, ops in res:
        d = {o[1][0][1]: o[1][1:] for o in ops}
        S.ok(w, "asks for one replacement and one insertion", len(ops) == 2 and set(d) == {"replace_substring", "insert_text_after"}, "ops", "asks for something else than one replacement and one insertion")
        if set(d) != {"replace_substring", "insert_text_after"}: continue
        r, t = d["replace_substring"]
        rule, new = d["insert_text_after"]
        S.ok(w, "what is taken out is replaced by the name of the new rule", t == cat((("str", "new_rule"),)), "name", "does not replace what is taken out by a reference to the new rule")
        body = e.app("piece", e.app("ftext", ck.file), r)
        S.ok(w, "the new rule consists of what was taken out", new == cat((("str", "\n\nrule new_rule {\n  "), body, ("str", "\n}"))), "text", "does not add a rule with just the text that was taken out")
        x, why = None, None
        if r[0] == "adt" and r[1] == RANGE:
            n = ck.nodeof(e, r)
            g, sc = ck.g(st, "climb"), ck.g(st, "scan")
            lo, hi = num(aff(r[3][ck.lo])), num(aff(r[3][1 - ck.lo]))
            if n != UNIT and ck.elem(e, n, "ancestors"): x = n
            else:
                a, b = (e.struct(v)[2] if v[0] == "s" and e.struct(v)[:2] == ("app", k) else UNIT for v, k in ((lo, "nstart"), (hi, "nend")))
                i, j = ck.elem(e, a, "children"), ck.elem(e, b, "children")
                if i and j and i[0] == j[0]: x = e.struct(i[0])[2]
                good = x is not None and sc is not None and sc[0] == "adt" and sc[2] == 2 and sc[3][0] == i[0] and eqn(e, st, sc[3][2], i[1]) and eqn(e, st, sc[3][3], j[1]) and eqn(e, st, sc[3][1], num(e_len(e, i[0])))
                S.ok(w, "a run goes from the first to the last part that the selection touches", good, "run", "takes out something other than what stands from the first to the last part that the selection touches")
                S.ok(w, "a run is part of a sequence and has expressions at both ends", x is not None and e.decide(st, e.app("is:SeqExpr", x)) is True and all(e.decide(st, e.app("is:Expr", y)) is True for y in (a, b)), "ends", "takes out a run that is not made of expressions of a sequence")
                seen.add("run")
            if x is not None:
                k = ck.elem(e, x, "ancestors")
                c = e.app(SEARCH + "find_covering_node<>", e.app("root", ck.file), e.snap(st, ck.sel))
                S.ok(w, "looks around the selection", bool(k) and k[0] == e.app("ancestors", c), "selection", "does not look at the nodes around the selection")
                S.ok(w, "takes the innermost expression", bool(k) and g is not None and g[0] == "adt" and g[2] == 1 and g[3][1] == ("str", "Expr") and eqn(e, st, g[3][0], k[1]), "inner", "does not take the innermost expression around the selection")
                S.ok(w, "a name alone is not taken out", e.decide(st, e.app("is:RefExpr", x)) is False, "ref", "takes out what is just a reference")
                S.ok(w, "the new rule stands behind the rule", rule == e.app("node", e.app(SEARCH + "ast::ancestor_exn<SynRule>", x)), "place", "does not put the new rule behind the one that the selection is in")
                if n == x:
                    seen.add("whole")
                    ends = sc is not None and sc[0] == "adt" and sc[2] == 2 and e.struct(sc[3][0])[2] == x
                    whole = e.decide(st, e.app("is:SeqExpr", x)) is not True or not ends or any(e.decide(st, e.app("is:Expr", e.index(st, sc[3][0], q))) is False for q in sc[3][2:4])
                    S.ok(w, "no more is taken out than the selection touches", whole, "whole", "takes out a whole sequence although only a run of it is selected")
        S.ok(w, "takes out an expression or a run", x is not None, "range", "takes out something other than an expression or a run of a sequence")
    for k in ("run", "whole"): S.ok(w, "may take out a %s" % k, k in seen, "reached:" + k, "never takes out a %s" % {"run": "run of a sequence", "whole": "whole expression"}[k])


def e_len(e, s): return aff(num(e.seqlen(s)))


def chain(e, x):
    """names of the accessors that lead to a value"""
    out = []
    for _ in range(12):
        y = field_of(e, x)
        if y is not None: x = y; continue
        y = e.struct(x) if x[0] == "s" else None
        if not y or y[0] != "app": break
        out.append(y[1].split("::")[-1])
        if y[1].startswith(SEARCH): return out, x
        x = y[2]
    return out, None


def braces(S, path, w):
    e, ck, res = S.runs(path)
    S.ok(w, "does something", bool(res), "never", "never yields an edit")
    for st, ops in res:
        good = len(ops) == 1 and ops[0][1][0] == ("str", "replace_with_text")
        S.ok(w, "replaces one node", good, "ops", "asks for something else than one replacement")
        if not good: continue
        _, n, t = ops[0][1]
        S.ok(w, "puts it in braces", t == cat((("str", "{"), e.app("ntext", n), ("str", "}"))), "text", "does not just put the text in braces")
        names, root = chain(e, n)
        S.ok(w, "of the path of the use at the cursor", names == ["node", "segment", "path", "node_at_offset<UseDecl>"] and root == e.app(SEARCH + "ast::node_at_offset<UseDecl>", e.app("root", ck.file), ck.at), "node", "replaces something other than the last segment of the path of the use at the cursor")
        none = any(b == 0 and (y := e.struct(("s", k))) and y[0] == "app" and y[1].split("::")[-1] == "spec" for k, b in st.vars.items() if isinstance(k, int))
        S.ok(w, "there are no braces yet", none, "spec", "does not make sure that there are no braces yet")


def impl(S, path, w):
    seen = set()
    for nl in range(3):
        for nt in range(3):
            e, ck, res = S.runs(path, {"lifetime_parameters": nl, "type_parameters": nt})
            for st, ops in res:
                good = len(ops) == 1 and ops[0][1][0] == ("str", "insert_text_after")
                S.ok(w, "inserts once", good, "ops", "asks for something else than one insertion")
                if not good: continue
                _, n, t = ops[0][1]
                names, root = chain(e, n)
                y = e.struct(root) if root is not None else None
                T = next((k for k in ("StructDef", "EnumDef") if y and re.fullmatch(r"node_at_offset<(\w+@\()?%s\)?>" % k, y[1].split("::")[-1])), None) if y and y[2:] == (e.app("root", ck.file), ck.at) else None
                S.ok(w, "behind the definition at the cursor", names[:1] == ["node"] and len(names) == 2 and T is not None, "node", "inserts something behind other nodes than the struct or enum at the cursor")
                if T is None: continue
                seen.add(T)
                some_ = lambda o: e.fld(o, 0, "0", "Some", OPTION)
                acc = lambda m, x: next((("s", i) for i, y in enumerate(list(e.T.structs)) if y[0] == "app" and len(y) == 3 and y[1].split("::")[-1] == m and y[2] == x), UNIT)
                d = some_(root)
                want = [("str", "\n\nimpl")]
                ps = acc("type_parameters", d)
                has = opt(st, ps)[0] if ps != UNIT else None
                S.ok(w, "asks for the parameters", has is not None, "params", "does not look at the parameters of the definition")
                p = some_(ps) if has else UNIT
                if has: want.append(e.app("ntext", e.app("node", p)))
                want += [("str", " "), some_(acc("name", d))]
                if has:
                    its = lambda m, c: [next((("s", i) for i, y in enumerate(list(e.T.structs)) if y[0] == "app" and y[1].startswith("item:") and y[1].split("::")[-1] == m and y[2:] == (p, const(j))), UNIT) for j in range(c)]
                    ns = [acc("lifetime", x) for x in its("lifetime_parameters", nl)] + [some_(acc("name", x)) for x in its("type_parameters", nt)]
                    want.append(("str", "<"))
                    for j, x in enumerate(ns): want += [("str", ", ")] * bool(j) + [x]
                    want.append(("str", ">"))
                want.append(("str", " {\n\n}"))
                S.ok(w, "the impl names the type with its parameters in order", t == cat(want), "text", lambda: "does not add an impl of the type with its parameters: %s" % repr("".join(x[1] if x[0] == "str" else "~" for x in t[3][0][1])))
                if has and nl == nt == 2: seen.add("parameters")
    for k in ("StructDef", "EnumDef", "parameters"): S.ok(w, "%s is reached" % k, k in seen, "reached:" + k, "never does it for a %s" % k)


def extend(S):
    path = "fall_editor::extend_selection::extend_selection"
    fn, b, e, ck, args = S.setup(path)
    e, w = b.eng, "extending the selection"
    ck.concrete = True
    rng = ("adt", RANGE, 0, tuple(e.fresh(k) for k in ("start", "end")))
    ck.sel, ck.at = rng, rng[3][ck.lo]
    e.addfact(b.st, L.add(aff(rng[3][1 - ck.lo]), aff(ck.at), -1))
    outs = [(s, v) for s, v in e.run(fn, [ck.file, rng], b.st) if feasible(s)]
    S.ok(w, "answers", bool(outs), "never", "never answers")
    cover = lambda r: e.app(SEARCH + "find_covering_node<>", e.app("root", ck.file), r)
    rangeof = lambda n: ("adt", RANGE, 0, tuple(e.app(k, n) for k in (("nstart", "nend") if ck.lo == 0 else ("nend", "nstart"))))
    between = lambda lo, hi: ("adt", RANGE, 0, (lo, hi) if ck.lo == 0 else (hi, lo))
    text, t, LA = e.app("ftext", ck.file), ck.leaves(e), SEARCH + "LeafAtOffset"
    seen = set()
    for st, v in outs:
        iss, x = opt(st, v)
        S.ok(w, "answers with something or nothing", iss is not None, "undecided", "answers neither with a range nor with nothing")
        x = e.snap(st, ck.strof(e, st, x)) if iss else None
        width = L.add(aff(rng[3][1 - ck.lo]), aff(ck.at), -1)
        if e.holds(st, L.shift(width, -1)):
            g, xs = ck.g(st, "grow"), e.app("ancestors", cover(rng))
            if g is None: S.ok(w, "a selection grows", False, "grow", "does not look at the nodes around the selection"); continue
            if iss:
                k = ck.elem(e, ck.nodeof(e, x), "ancestors")
                S.ok(w, "a selection grows to the next larger node", bool(k) and k[0] == xs and g[2] == 1 and eqn(e, st, g[3][0], k[1]), "larger", "does not extend a selection to the smallest node around it that is larger")
            else: S.ok(w, "a selection can not grow", g[2] == 0 and eqn(e, st, g[3][0], num(e_len(e, xs))), "top", "gives up although there is a larger node around the selection")
            seen.add(("grows", iss))
            continue
        S.ok(w, "tells a cursor from a selection", e.holds(st, L.neg(width)), "empty", "does not tell a cursor from a selection")
        i = st.vars.get(t[1])
        S.ok(w, "looks at the leaves at the cursor", isinstance(i, int), "leaves", "does not look at the leaves at the cursor")
        if not isinstance(i, int): continue
        vd = e.F.adts[LA]["variants"][i]
        ls = [e.fld(t, j, str(j), vd["name"], LA) for j in range(len(vd["fields"]))]
        want, why = None, "nothing"
        for n in ls:
            b = ck.wslike(e, st, n)
            if b is True: continue
            want, why = (rangeof(n), "a token") if b is False else (UNIT, "undecided")
            break
        else:
            if ls:
                n = ls[0]
                end = e.app("nend", n)
                rest = e.app("piece", text, ("adt", "fall_text::text_range::TextSuffix", 0, (end,)))
                for y in (q for q in list(e.T.structs) if q[:3] == ("app", "piece", text)):
                    if y[3][0] == "adt" and y[3][1].endswith("TextSuffix") and num(aff(y[3][3][0])) == end and e.decide(st, e.app("newline", e.app("piece", text, y[3]))) is not None: rest = e.app("piece", text, y[3])
                cs = [e.decide(st, e.app("newline", y)) for y in (e.app("ntext", n), e.app("piece", text, between(ck.at, end)), rest)]
                if cs == [True, False, True]: want, why = rangeof(ck.covering(e, st, e.app("root", ck.file), e.snap(st, between(end, num(L.add(aff(end), aff(e.app("newline at", rest)))))))), "the line behind"
                elif cs[0] is False or cs[1] is True or cs[2] is False: want, why = rangeof(n), "blank space"
                else: want, why = UNIT, "undecided"
        seen.add((why, len(ls)))
        S.ok(w, "the cursor selects %s" % why, x == (None if want is None else e.snap(st, want)), "cursor:" + why, lambda: "at a cursor with %d leaves selects %s where it should be %s" % (len(ls), e.show(x) if x else "nothing", why))
    for k in ("a token", "the line behind", "blank space"):
        for n in (1, 2): S.ok(w, "%s is reached" % k, (k, n) in seen, "reached:" + k, "never selects %s" % k)
    for k in (True, False): S.ok(w, "growing is reached", ("grows", k) in seen, "reached:grows", "never extends a selection")
    ps = [p for p in ck.panics if feasible(p[0])]
    S.ok(w, "does not fail", not ps, "panic", lambda: "%s may panic: %s" % (w, ps[0][2]))
    S.ctx.account(e)
    S.ctx.count("paths", len(outs))


RULES = {"Swap": swap, "Swap alternatives": alternatives, "Extract rule": extract, "Add braces": braces, "Add impl": impl}


def asked(S, entries):
    """actions are asked about the file and the selection, or where it begins"""
    for i in [i for i in S.F.impls if i["trait"] and canon(i["trait"]) == EFI]:
        w = "editor %s" % canon(i["self"]).split("::")[-1]
        for m in ("context_actions", "apply_context_action"):
            fn, _ = method(S, i, m)
            b = S.bench()
            e, ck = b.eng, b.ck
            ck.entries = entries
            lo = fidx(S.F, RANGE, "start")
            rng = ("adt", RANGE, 0, tuple(e.fresh(k) for k in ("start", "end")))
            outs = list(e.run(fn, [e.fresh("file"), rng, e.fresh("id")][:fn.argc], b.st))
            for p, args, _ in dict.fromkeys(ck.asked):
                x = args[1] if len(args) == 2 else UNIT
                S.ok(w, "%s gets the selection" % entries[p], e.snap(b.st, x) == e.snap(b.st, rng) or x == rng[3][lo] or num(aff(x)) == rng[3][lo] if x[0] in ("s", "i", "adt", "rv") else False, "selection:" + entries[p], "asks the action %s about something other than the selection or where it begins" % entries[p])
            S.ok(w, "%s asks" % m, len({a[0] for _, a, _ in ck.asked}) == 1, "asks:" + m, "does not ask all actions about one file")
            S.ctx.account(e)


def analyse(F, M, rep, ctx):
    S = Effects(F, M, rep, ctx)
    S.prop = "C32"
    entries = tables(S)
    asked(S, entries)
    extend(S)
    for k in RULES: S.ok("actions", "%s exists" % k, k in entries.values(), "missing:" + k, "there is no action %s" % k)
    for p in sorted(entries):
        w = "action %s" % entries[p]
        h = RULES.get(entries[p])
        if h is None: raise CheckError("no rule says what the action %s does" % entries[p])
        h(S, p, w)
