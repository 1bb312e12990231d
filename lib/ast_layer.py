"""Syntax trees of the grammar language as opaque facts: what an accessor says is a function of the element.
Texts are compared with constants consistently, queries answer with a function of what they are asked."""
import re
from absint import *
from absint import OPTION
from facts import CheckError, canon
from builtins_rs import val, madt, NONE, some
from rules_search import NodeCk, MON, NODE, eqn, feasible
import linear as L

SYN = ("lang_fall_syntax::", "<lang_fall_syntax::")
DB = "lang_fall::analysis::db::DB"
SINK = "lang_fall::analysis::diagnostics::DiagnosticSink"
ASTNODE = "fall_tree::ast::AstNode"


def tyname(t):
    while t["k"] in ("ref", "ptr"): t = t["to"]
    return canon(t.get("def") or t["s"]).split("<")[0]


class AstCk(NodeCk):
    antiunify = True

    def __init__(self, syn=SYN):
        NodeCk.__init__(self)
        self.syn = syn
        self.search = True
        self.track = False
        self.texts = {}

    def strof(self, eng, st, x):
        for _ in range(6):
            if x[0] in ("ref", "rv"): x = eng.load(st, x)
            elif x[0] == "s" and ("D", x[1]) in st.mem: x = st.mem[("D", x[1])]
            else: break
        return x

    def texteq(self, eng, st, a, b):
        """texts of the file are not known; a text has at most one value"""
        a, b = self.strof(eng, st, a), self.strof(eng, st, b)
        if a[0] == "str" and b[0] == "str": return [(st, TRUE if a == b else FALSE)]
        if b[0] == "str" or a[0] == "str":
            if a[0] == "str": a, b = b, a
            known = self.textof(eng, st, a)
            if known is not None: return [(st, TRUE if known == b[1] else FALSE)]
            x = eng.app("text=", a, b)
            self.texts.setdefault(a, {})[b[1]] = x
            return [(s2, TRUE if t else FALSE) for s2, t in eng.fork(st, x)]
        if a == b: return [(st, TRUE)]
        return [(st, eng.cmp("Eq", a, b))]

    def textof(self, eng, st, a):
        """the constant this text is known to be"""
        for s, x in self.texts.get(a, {}).items():
            if eng.decide(st, x) is True: return s
        return None

    def event(self, st, what, *args):
        """a set of what happened, small enough for loops"""
        old = st.mem.get(("G", what), ("tup", ()))
        old = old[1] if old[0] == "tup" else ()
        x = ("tup", tuple(args))
        if x not in old: st.mem[("G", what)] = ("tup", (old + (x,))[-4:])

    def events(self, st, what):
        g = st.mem.get(("G", what), ("tup", ()))
        return [x[1] for x in g[1]] if g[0] == "tup" else []

    def report(self, eng, st, severity, node, msg):
        """a problem of the grammar is reported"""
        self.event(st, "report", ("str", severity), eng.snap(st, node), eng.snap(st, msg))

    def items(self, eng, st, seq): return madt("VecIter", ("rv", seq), const(0))

    def tuple_of(self, eng, st, it, n, exact):
        """itertools next_tuple / collect_tuple on a list of the file"""
        r = None
        for _ in range(4):
            if it[0] in ("ref", "rv"): r, it = it, eng.load(st, it)
        if it[0] != "adt" or it[1] not in ("models::VecIter", "models::SliceIter"): return None
        s = it[3][0]
        while s[0] in ("ref", "rv"): s = eng.load(st, s)
        pos = it[3][1]
        left = L.add(aff(num(eng.seqlen(s))), aff(pos), -1)
        outs = []
        short = st.copy()
        # fewer (or more) items than wanted
        for s1, b in eng.fork(st, ("c", "le", None) if False else eng.cmp("Ge", num(left), const(n))):
            if not b: outs.append((s1, NONE)); continue
            for s2, c in (eng.fork(s1, eng.cmp("Eq", num(left), const(n))) if exact else [(s1, True)]):
                if not c: outs.append((s2, NONE)); continue
                xs = tuple(eng.index(s2, s, num(L.shift(aff(pos), i))) for i in range(n))
                outs.append((s2, some(("tup", xs))))
        return outs

    def intercept(self, eng, st, name, args, call):
        m, tr = call["method"], call["trait"]
        h = self.calls.get(name) or self.calls.get(m if tr and tr in self.calls else None)
        if h is not None:
            r = h(self, eng, st, args, call)
            if r is not None: return r
        if (name.startswith(self.syn) or (tr == ASTNODE and tyname_of(call, self.syn))) and not (tr or "").startswith(("core::", "std::", "alloc::")):
            a = [self.strof(eng, st, val(eng, st, x)) for x in args]
            short = name.split("::", 1)[1] if name.startswith(self.syn) else name
            if tr == ASTNODE or m in ("wrap", "node"):
                t = self.selfty(name, call)
                if m == "node": return [(st, eng.app("node", a[0]))]
                if m == "wrap":
                    x = eng.struct(a[0])
                    outs = []
                    for s2, b in eng.fork(st, eng.app("is:" + t, a[0])):
                        outs.append((s2, some(eng.app("as:" + t, a[0])) if b else NONE))
                    return outs
            s = call["dty"]["s"]
            if "AstChildren" in s or "Iterator" in s or "iter::" in s:
                return [(st, self.items(eng, st, eng.app("list:" + short, *a)))]
            return [(st, eng.app(short, *a))]
        if m == "next" and args and tr == "core::iter::traits::iterator::Iterator" and name in eng.F.fns:
            t = args[0]
            while t[0] in ("ref", "rv"): t = eng.load(st, t)
            if t[0] == "adt" and t[1].startswith("models::"):
                from builtins_rs import it_next
                outs = it_next(eng, st, args[0], call)
                if outs is not None:
                    self.on_result(eng, call, args, outs)
                    return outs
        if name.startswith("<fall_text::text::Text") and m in ("eq", "ne") and tr == "core::cmp::PartialEq":
            outs = self.texteq(eng, st, args[0], args[1])
            return outs if m == "eq" else [(s, eng.notv(v)) for s, v in outs]
        if name in ("<str as core::cmp::PartialEq>::eq", "core::str::traits::eq") or (m in ("eq", "ne") and tr == "core::cmp::PartialEq" and any(self.strof(eng, st, x)[0] == "str" for x in args)):
            outs = self.texteq(eng, st, args[0], args[1])
            return outs if m != "ne" else [(s, eng.notv(v)) for s, v in outs]
        if name == DB + "::file": return [(st, eng.app("file", val(eng, st, args[0])))]
        if name == DB + "::get" or (tr or "").endswith("db::QExecutor") and m == "execute":
            q = args[1] if name == DB + "::get" else args[0]
            q = val(eng, st, q)
            t = q[1] if q[0] == "adt" else next((canon(a["def"]) for a in call["targs"] if a["k"] == "adt" and "::query::" in canon(a["def"])), "?")
            t = t.split("::")[-1]
            p = [self.strof(eng, st, val(eng, st, x)) for x in q[3]] if q[0] == "adt" else [q]
            if self.track: self.event(st, "asked", ("str", t), *p)
            return [(st, eng.app("get:" + t, *p))]
        if name.startswith(SINK) and m in ("error", "warning"):
            self.report(eng, st, m, val(eng, st, args[1]), val(eng, st, args[2]))
            return [(st, UNIT)]
        if tr == "itertools::Itertools" and m in ("next_tuple", "collect_tuple"):
            k = arity(call["dty"]["s"])
            return self.tuple_of(eng, st, args[0], k, m == "collect_tuple")
        if name.startswith("fall_tree::search::") and self.search:
            a = [self.strof(eng, st, val(eng, st, x)) for x in args]
            nm = name + "<" + ",".join(self.targ(t) for t in call["targs"]) + ">"
            s = call["dty"]["s"]
            if "iter::" in s or "Iterator" in s or "AstChildren" in s: return [(st, self.items(eng, st, eng.app("list:" + nm, *a)))]
            return [(st, eng.app(nm, *a))]
        if name in ("alloc::sync::Arc::new", "alloc::boxed::Box::new") : return [(st, args[0])]
        if (tr, m) == ("core::ops::deref::Deref", "deref") and name.startswith("<alloc::sync::Arc"): return [(st, args[0])]
        return NodeCk.intercept(self, eng, st, name, args, call)

    def targ(self, t): return tyname(t).split("::")[-1]

    def selfty(self, name, call):
        m = re.match(r"<(.*) as ", name)
        t = m.group(1) if m else name.rsplit("::", 1)[0]
        return canon(t).split("<")[0].split("::")[-1]


def tyname_of(call, syn):
    return call["name"].startswith(syn)


def arity(s):
    """number of elements of the tuple in Option<(...)>"""
    i = s.index("(")
    d, n, last = 0, 0, ""
    for c in s[i + 1:]:
        if c in "(<[": d += 1
        elif c in ">]" or c == ")" and d: d -= 1
        elif c == ")": break
        elif c == "," and not d: n += 1; last = ""; continue
        if not c.isspace(): last += c
    return n + (1 if last else 0)
