"""C01 (events to leaves) and C02 (tree builder): how the event log becomes a tree."""
from absint import *
from facts import CheckError
import linear as L
from rules_text import Bench, Rec, fidx, vidx, implfn, RANGE, TEXT

TOKEN = "fall_parse::lex_engine::Token"
EVENT = "fall_parse::syn_engine::Event"
CONV = "fall_parse::syn_engine::convert::Convertor"
CONVERSION = "fall_parse::syn_engine::convert::Conversion"
MOD = "fall_parse::syn_engine::convert::"
BUILDER = "fall_tree::node::tree_builder::TreeBuilder"
FNT = ("core::ops::function::Fn", "core::ops::function::FnMut", "core::ops::function::FnOnce")
NONE_, START, TOK, END = 0, 1, 2, 3
mon = lambda i: ("adt", "mon", i, ())


def eqn(eng, st, a, b):
    d = L.add(aff(a), aff(b), -1)
    return eng.holds(st, d) and eng.holds(st, L.neg(d))


def path_of(eng, v, base):
    """(index, [field names]) of a value read out of an element of `base`"""
    p = []
    for _ in range(8):
        if v[0] != "s": return None
        d = eng.struct(v)
        if d[0] == "f" and d[3][0] == "T":
            p.append((d[1], d[2])); v = ("s", d[3][1]); continue
        if d[0] == "elem" and d[1] == base: return d[2], tuple(reversed(p))
        return None
    return None


class Conv(Checker):
    def __init__(self, F, rep, root):
        self.F, self.rep, self.root = F, rep, root
        self.asserts = {}
        self.names = [v["name"] for v in F.adt(EVENT)["variants"]]
        self.code = {self.names.index("Start"): START, self.names.index("Token"): TOK, self.names.index("End"): END}
        self.leaves = self.nested = 0
        self.asked = set()

    def ok(self, prop, what, c, key, msg):
        if self.eng.quiet: return c
        return self.rep.ok(prop, what, c, "convert:" + key, msg)

    def g(self, st, k): return st.mem[("G", k)]

    def s(self, st, k, v): st.mem[("G", k)] = v

    def wsto(self, st, v):
        """everything before v is known to be whitespace; wsend: and v is known not to be"""
        self.s(st, "wsto", v); self.s(st, "wsend", mon(0))

    def on_assert(self, eng, st, kind, cond, fn, span):
        if eng.quiet: return
        d = eng.decide(st, cond)
        sh = eng.show(cond, 8)
        if d is not True and ("events" in sh or "n_raw_tokens" in sh): return      # the parser's events account for the tokens (C01, parser rules)
        k = (fn.path, kind, sh)
        self.asserts[k] = self.asserts.get(k, True) and d is True

    def on_panic(self, eng, st, name, fn, span):
        if eng.quiet: return
        self.ok("C26", "no panic in %s" % fn.path.split("::")[-1], False, "panic:" + fn.path, "%s can panic while building the tree" % fn.path)

    def isws(self, eng, st, ty):
        """outcomes of asking whether a kind is whitespace"""
        p = path_of(eng, ty, self.T)
        if p is None: return [(st, eng.app("is_ws", ty))]
        k = p[0]
        w, front = self.g(st, "wsto"), self.g(st, "front")
        if self.root and self.g(st, "pend")[2] == END:                # after the last event of the file only whitespace is left
            if eqn(eng, st, k, w): self.wsto(st, num(L.shift(aff(k), 1)))
            return [(st, TRUE)]
        if eng.holds(st, L.shift(L.add(aff(w), aff(k), -1), -1)): return [(st, TRUE)]
        a, b = st, st.copy()
        if eqn(eng, a, k, w): self.wsto(a, num(L.shift(aff(k), 1)))
        if eqn(eng, b, k, w): self.s(b, "wsend", mon(1))
        return [(a, TRUE), (b, FALSE)]

    def res(self, eng, st, v):
        for _ in range(5):
            if v[0] in ("ref", "rv"): v = eng.load(st, v)
            elif v[0] == "s" and ("D", v[1]) in st.mem: v = st.mem[("D", v[1])]
            else: break
        return v

    def intercept(self, eng, st, name, args, call):
        m, tr = call["method"], call["trait"] or ""
        if tr in FNT and args:
            f = self.res(eng, st, args[0])
            if f == self.W:
                a = eng.tuple_args(st, args[1])
                return self.isws(eng, st, self.res(eng, st, a[0]))
            if f == self.B:
                a = eng.tuple_args(st, args[1])
                r = eng.fresh("bound")
                self.s(st, "bnd", r)
                n = eng.reflen(st, eng.deref(a[1]))
                eng.addfact(st, L.add(n, aff(r), -1))
                if self.root and a[0] == self.ty: eng.addfact(st, L.add(aff(r), n, -1))      # a file takes all of the whitespace next to it
                self.bind(eng, st, self.res(eng, st, a[0]), n, a[2], r)
                return [(st, r)]
        if name == BUILDER + "::start_internal": return self.start(eng, st, args)
        if name == BUILDER + "::finish_internal": return self.finish(eng, st, args)
        if name == BUILDER + "::leaf": return self.leaf(eng, st, args)
        if name == CONV + "::go" and eng.stack: return self.go(eng, st, args)
        return None

    def bind(self, eng, st, ty, n, leading, r):
        """the language is asked how many of the n whitespace tokens at hand a node takes"""
        front, pend = self.g(st, "front"), self.g(st, "pend")[2]
        for lead in (True, False):
            if leading not in (TRUE, FALSE) or (leading == TRUE) != lead: continue
            p = path_of(eng, ty, self.E)
            mine = pend == START and p is not None and eqn(eng, st, p[0], self.g(st, "pk")) if lead else pend == END and ty == self.ty
            self.ok("C29", "the language is asked about the node at hand", mine, "bind-node", "the language's whitespace binder is asked about another node than the one whose whitespace is at hand")
            full = eqn(eng, st, num(L.add(aff(front), n)), self.g(st, "wsto")) and (self.g(st, "wsend")[2] == 1 or eqn(eng, st, self.g(st, "wsto"), self.n))
            self.ok("C29", "all adjacent whitespace is offered", full, "bind-all", "the language's whitespace binder is not shown exactly the whitespace tokens next to the node")
            self.s(st, "bst", mon(1 if lead else 2))
            self.s(st, "want", num(L.add(L.add(aff(front), n), aff(r), -1)) if lead else num(L.add(aff(front), aff(r))))
            if not eng.quiet: self.asked |= {lead}
            return
        self.ok("C29", "the side is told", False, "bind-side", "the language's whitespace binder is not told on which side of the node the whitespace is")

    def on_push(self, eng, st, ref, item, fn):
        if not (item[0] == "tup" and len(item[1]) == 2): return
        t, x = (self.res(eng, st, v) for v in item[1])
        p, q = path_of(eng, t, self.T), path_of(eng, x, self.T)
        k = p and p[0]
        self.ok("C29", "whitespace is offered in order, with its text", p is not None and q is not None and p[0] == q[0] and p[1][-1][1] == "ty" and q[1][-1] [1] == "1" and eqn(eng, st, num(L.add(aff(k), eng.reflen(st, ref), -1)), self.g(st, "front")), "bind-list", "the whitespace offered to the language is not that next to the node, in order, with kind and text")

    def start(self, eng, st, args):
        o = self.g(st, "open")[2]
        self.ok("C01 C02", "a node is opened once, first", o == 0 and self.res(eng, st, args[1]) == self.ty and eqn(eng, st, self.g(st, "front"), self.f0), "open", "the conversion of a node does not open exactly that node before anything in it")
        self.s(st, "open", mon(1))
        return [(st, UNIT)]

    def finish(self, eng, st, args):
        o = self.g(st, "open")[2]
        self.ok("C01 C02", "a node is closed once, after its contents", o == 1 and self.g(st, "pend")[2] == END, "close", "the conversion of a node does not close it exactly once, at its end")
        self.ok("C29", "a node takes the trailing whitespace it is given", self.g(st, "bst")[2] == 2 and eqn(eng, st, self.g(st, "front"), self.g(st, "want")), "bind-trailing", "a node is not closed after exactly the trailing whitespace that the language gives it")
        self.s(st, "open", mon(2))
        return [(st, UNIT)]

    def leaf(self, eng, st, args):
        ty, ln = self.res(eng, st, args[1]), self.res(eng, st, args[2])
        front = self.g(st, "front")
        if not eng.quiet: self.leaves += 1
        inside = self.g(st, "open")[2] == 1
        self.ok("C01 C02", "leaves go into an open node", inside, "outside", "a leaf is added outside the node being converted")
        pe, pt = path_of(eng, ty, self.E), path_of(eng, ty, self.T)
        if pe is not None:
            rd = self.g(st, "rd")
            n = eng.fld(("s", eng.T.intern(("elem", self.E, pe[0]))), self.nraw, "n_raw_tokens", "Token", EVENT)
            self.ok("C01", "a leaf has the kind of its event", self.g(st, "pend")[2] == TOK and eqn(eng, st, pe[0], self.g(st, "pk")) and pe[1][-1][1] == "ty", "event", "a token event does not become exactly one leaf of its kind")
            self.ok("C01", "a leaf covers the tokens of its event", eqn(eng, st, num(L.add(aff(rd), aff(front), -1)), n) and eqn(eng, st, ln, self.g(st, "acc")), "cover", "the leaf of a token event does not cover exactly the raw tokens of the event, from where the previous leaf ended")
            self.ok("C01", "no whitespace is taken for a token", eqn(eng, st, self.g(st, "wsto"), front) and (self.g(st, "wsend")[2] == 1 or eqn(eng, st, front, self.n)), "nonws", "the leaf of a token event may start at a whitespace token")
            self.s(st, "front", rd); self.wsto(st, rd)
            self.s(st, "pend", mon(NONE_))
            return [(st, UNIT)]
        good = False
        if pt is not None:
            k = pt[0]
            pl = path_of(eng, ln, self.T)
            good = eqn(eng, st, k, front) and pt[1][-1][1] == "ty" and pl is not None and eqn(eng, st, pl[0], k) and pl[1][-1][1] == "len"
            self.ok("C01", "only whitespace is left in between", eng.holds(st, L.shift(L.add(aff(self.g(st, "wsto")), aff(front), -1), -1)), "ws", "a token that is not whitespace is added without its event")
        self.ok("C01", "whitespace leaves follow each other", good, "order", "a whitespace leaf is not the raw token that follows the previous leaf")
        self.s(st, "front", num(L.shift(aff(front), 1)))
        return [(st, UNIT)]

    def view(self, eng, st, v, base):
        """(offset, end) of a slice of base"""
        v = eng.deref(v)
        if v[0] == "view": b, o, n = v[1], aff(v[2]), aff(v[3])
        else: b, o, n = v, ((), 0), None
        try: x = eng.load(st, b)
        except CheckError: return None
        if x != base: return None
        return num(o), num(L.add(o, n)) if n is not None else num(eng.seqlen(base))

    def go(self, eng, st, args):
        if not eng.quiet: self.nested += 1
        ty = self.res(eng, st, args[1])
        p = path_of(eng, ty, self.E)
        self.ok("C01", "a start event opens a node of its kind", self.g(st, "pend")[2] == START and p is not None and eqn(eng, st, p[0], self.g(st, "pk")) and p[1][-1][1] == "ty", "start", "a start event is not converted into exactly one node of its kind")
        tv, ev = self.view(eng, st, args[2], self.T), self.view(eng, st, args[3], self.E)
        self.ok("C01", "a nested node continues where its parent stands", tv is not None and eqn(eng, st, tv[0], self.g(st, "front")) and eqn(eng, st, tv[1], self.n), "tokens", "a nested node is not converted from the raw token where its parent stands")
        self.ok("C01", "a nested node is made of the events after its start", ev is not None and eqn(eng, st, ev[0], self.g(st, "ev")) and eqn(eng, st, ev[1], self.m), "events", "a nested node is not converted from the events that follow its start event")
        self.ok("C01 C02", "nested nodes go into an open node", self.g(st, "open")[2] == 1 and self.res(eng, st, args[4]) == self.res(eng, st, self.b), "nested", "a nested node is built outside its parent")
        self.ok("C29", "a node takes the leading whitespace it is given", self.g(st, "bst")[2] == 1 and eqn(eng, st, self.g(st, "front"), self.g(st, "want")), "bind-leading", "a node does not start before exactly the leading whitespace that the language gives it")
        self.s(st, "bst", mon(0))
        re, ne = eng.fresh("right_edge"), eng.fresh("n_events")
        eng.addfact(st, L.add(L.add(aff(self.n), aff(self.g(st, "front")), -1), aff(re), -1))
        eng.addfact(st, L.add(L.add(aff(self.m), aff(self.g(st, "ev")), -1), aff(ne), -1))
        fr = num(L.add(aff(self.g(st, "front")), aff(re)))
        self.s(st, "front", fr); self.wsto(st, fr)
        self.s(st, "ev", num(L.add(aff(self.g(st, "ev")), aff(ne))))
        self.s(st, "pend", mon(NONE_))
        v = [None, None]
        v[fidx(self.F, CONVERSION, "right_edge")], v[fidx(self.F, CONVERSION, "n_events")] = re, ne
        return [(st, ("adt", CONVERSION, 0, tuple(v)))]

    def on_variant(self, eng, st, i, idx, path):
        if path != EVENT: return
        d = eng.T.structs[i]
        if d[0] != "elem" or d[1] != self.E: return
        self.ok("C01", "events are taken one after the other", eqn(eng, st, d[2], self.g(st, "ev")), "next-event", "an event is skipped or taken twice")
        self.ok("C01", "an event is dealt with before the next", self.g(st, "pend")[2] == NONE_, "drop-event", "an event is dropped: neither a leaf nor a node is made for it")
        self.s(st, "ev", num(L.shift(aff(d[2]), 1)))
        self.s(st, "pk", d[2])
        self.s(st, "pend", mon(self.code.get(idx, NONE_)))

    def on_result(self, eng, call, args, outs):
        m = call["method"]
        if m in ("iter", "into_iter") and args:
            for st, v in outs:
                if v[0] == "adt" and v[1].endswith("SliceIter") and v[3][1] == const(0):
                    w = self.view(eng, st, v[3][0], self.T)
                    if w is None: continue
                    self.s(st, "rd", w[0]); self.s(st, "acc", const(0))
                    f = self.g(st, "front")
                    if eqn(eng, st, w[0], f) and not eqn(eng, st, self.g(st, "wsto"), f) and not eng.holds(st, L.add(aff(self.g(st, "wsto")), aff(w[1]), -1)): self.wsto(st, f)
            return
        if m == "next":
            for st, v in outs:
                if not (v[0] == "adt" and v[1] == OPTION): continue
                if v[2] == 0:
                    if eqn(eng, st, self.g(st, "wsto"), self.n): self.s(st, "wsend", mon(1))
                    continue
                x = self.res(eng, st, v[3][0])
                d = eng.struct(x) if x[0] == "s" else None
                if d and d[0] == "elem" and d[1] == self.T and eqn(eng, st, d[2], self.g(st, "rd")):
                    self.s(st, "rd", num(L.shift(aff(d[2]), 1)))
                    self.s(st, "acc", num(L.add(aff(self.g(st, "acc")), aff(self.tlen(x)))))

    def tlen(self, x):
        e = self.eng
        return e.fld(e.fld(x, 0, "0", "", ""), fidx(self.F, TOKEN, "len"), "len", "", TOKEN)


def setup(F, M, rep, root):
    ck = Conv(F, rep, root)
    eng = Eng(F, M, ck)
    ck.eng = eng
    st = St()
    ck.W, ck.B = eng.fresh("is_whitespace"), eng.fresh("whitespace_binder")
    ck.T, ck.E = eng.fresh("tokens"), eng.fresh("events")
    ck.n, ck.m = num(eng.seqlen(ck.T)), num(eng.seqlen(ck.E))
    names = [f["name"] for f in F.adt(EVENT)["variants"][F.adt(EVENT)["variants"].index([v for v in F.adt(EVENT)["variants"] if v["name"] == "Token"][0])]["fields"]]
    ck.nraw = names.index("n_raw_tokens")
    fs = F.adt(CONV)["variants"][0]["fields"]
    v = [None] * len(fs)
    v[fidx(F, CONV, "is_whitespace")], v[fidx(F, CONV, "whitespace_binder")] = ck.W, ck.B
    tc, ec, cc, bc = eng.fresh("tok&"), eng.fresh("ev&"), eng.fresh("conv&"), eng.fresh("builder&")
    st.mem[("D", tc[1])], st.mem[("D", ec[1])], st.mem[("D", cc[1])] = ck.T, ck.E, ("adt", CONV, 0, tuple(v))
    st.mem[("D", bc[1])] = eng.fresh("builder")
    ck.f0, ck.e0 = eng.fresh("at"), eng.fresh("event")
    ck.b = bc
    for x, y in ((ck.n, ck.f0), (ck.m, ck.e0)): eng.addfact(st, L.add(aff(x), aff(y), -1))
    for k, x in (("front", ck.f0), ("wsto", ck.f0), ("rd", ck.f0), ("acc", const(0)), ("bnd", const(0)), ("want", const(0)), ("ev", ck.e0), ("pk", ck.e0)):
        st.mem[("G", k)] = x
    st.mem[("G", "pend")] = st.mem[("G", "open")] = st.mem[("G", "wsend")] = st.mem[("G", "bst")] = mon(0)
    tv = ("view", eng.deref(tc), ck.f0, num(L.add(aff(ck.n), aff(ck.f0), -1)))
    evv = ("view", eng.deref(ec), ck.e0, num(L.add(aff(ck.m), aff(ck.e0), -1)))
    ck.ty = eng.fresh("ty")
    return ck, eng, st, cc, tv, evv, bc


def conversion(F, M, rep, ctx):
    go = F.fn(CONV + "::go")
    for root in (False, True):
        ck, eng, st, cc, tv, evv, bc = setup(F, M, rep, root)
        outs = eng.run(go, [cc, ck.ty, tv, evv, bc], st)
        rep.ok("C01", "nodes are converted", bool(outs) and ck.leaves > 0 and ck.nested > 0, "convert:none", "the conversion of a node never returns")
        rep.ok("C29", "both sides of a node are asked about", ck.asked == {True, False}, "convert:bind-none", "the language is not asked about the whitespace on both sides of a node")
        for s, r in outs:
            re = eng.fld(r, fidx(F, CONVERSION, "right_edge"), "right_edge", "", CONVERSION)
            ne = eng.fld(r, fidx(F, CONVERSION, "n_events"), "n_events", "", CONVERSION)
            front, ev = s.mem[("G", "front")], s.mem[("G", "ev")]
            rep.ok("C01", "a node reports the tokens it took", eqn(eng, s, num(L.add(aff(ck.f0), aff(re))), front), "convert:right-edge", "the conversion of a node does not report exactly the raw tokens it added")
            rep.ok("C01", "a node reports the events it took", eqn(eng, s, num(L.add(aff(ck.e0), aff(ne))), ev), "convert:n-events", "the conversion of a node does not report exactly the events it used")
            rep.ok("C01 C02", "a node is complete when its conversion ends", s.mem[("G", "open")][2] == 2 and s.mem[("G", "pend")][2] == END, "convert:complete", "the conversion of a node ends before the node is closed")
            if root: rep.ok("C01", "the file takes all tokens", eqn(eng, s, front, ck.n), "convert:all", "trailing whitespace of a file is not added to the tree")
        for (fn, kind, sh), good in ck.asserts.items():
            rep.ok("C26 C01", "%s in %s" % (kind, fn.split("::")[-1]), good, "convert:bounds:%s:%s" % (fn, kind), "%s: %s may be out of range: %s" % (fn, kind, sh))
        ctx.account(eng)




# ------------------------------------------------------------------ C01: convert, reshuffle_events
class Top(Rec):
    """convert(): every raw token is paired with its own text and all of them are handed, with the
    reshuffled events after the first, to the conversion of the root"""
    def __init__(self, F, rep):
        super().__init__(); self.F, self.rep, self.went, self.pushes = F, rep, 0, 0

    def g(self, st, k): return st.mem[("G", k)]

    def s(self, st, k, v): st.mem[("G", k)] = v

    def ok(self, what, c, key, msg):
        if not self.eng.quiet: self.rep.ok("C01", what, c, "convert:" + key, msg)

    def res(self, st, v):
        for _ in range(4):
            if v[0] in ("ref", "rv"): v = self.eng.load(st, v)
            elif v[0] == "s" and ("D", v[1]) in st.mem: v = st.mem[("D", v[1])]
            else: break
        return v

    def intercept(self, eng, st, name, args, call):
        if name == MOD + "reshuffle_events":
            a = eng.deref(args[0])
            self.ok("all events are put in order", (eng.load(st, a) if a[0] != "s" else a) in (self.E, ("slice", self.E, const(0), num(eng.seqlen(self.E)))), "reshuffled", "convert does not put all events of the parse in order")
            return [(st, self.R)]
        if name == TEXT + "::slice":
            return [(st, eng.app("slice", self.res(st, args[0]), *[x for x in self.rng(args[1])]))]
        if name == CONV + "::go":
            if not eng.quiet: self.went += 1
            R0 = ("s", eng.T.intern(("elem", self.R, const(0))))
            p = path_of(eng, self.res(st, args[1]), self.R)
            self.ok("the first event opens the root", p is not None and eqn(eng, st, p[0], const(0)) and p[1][-1][1] == "ty", "root-kind", "the root node does not get the kind of the first event")
            tv = eng.deref(args[2])
            x = eng.load(st, tv)
            n = num(eng.reflen(st, tv))
            whole = tv[0] != "view" or eqn(eng, st, tv[2], const(0))
            self.ok("all raw tokens are converted", whole and eqn(eng, st, n, num(eng.seqlen(self.T))) and eqn(eng, st, self.g(st, "k"), num(eng.seqlen(self.T))), "all-tokens", "not all raw tokens are handed to the conversion")
            ev = eng.deref(args[3])
            o = ev[2] if ev[0] == "view" else const(0)
            b = eng.load(st, ev[1]) if ev[0] == "view" else eng.load(st, ev)
            self.ok("all events after the first are converted", b == self.R and eqn(eng, st, o, const(1)) and (ev[0] != "view" or eqn(eng, st, num(L.add(aff(o), aff(ev[3]))), num(eng.seqlen(self.R)))), "rest", "not all events after the first are handed to the conversion")
            c = self.res(st, args[0])
            g = lambda k: self.res(st, eng.fld(c, fidx(self.F, CONV, k), k, "", CONV))
            self.ok("the conversion uses the given whitespace functions", g("is_whitespace") == self.W and g("whitespace_binder") == self.B, "functions", "the conversion does not use the given whitespace functions")
            self.ok("the tree is built in the given builder", eng.deref(args[4]) == eng.deref(self.b), "builder", "the conversion builds another tree than the given one")
            return [(st, eng.fresh("conversion"))]
        return None

    def rng(self, v):
        e = self.eng
        return (e.fld(v, fidx(self.F, RANGE, "start"), "start", "", RANGE), e.fld(v, fidx(self.F, RANGE, "end"), "end", "", RANGE))

    def on_push(self, eng, st, ref, item, fn):
        if not (item[0] == "tup" and len(item[1]) == 2): return
        if not eng.quiet: self.pushes += 1
        k = self.g(st, "k")
        t, x = (self.res(st, v) for v in item[1])
        tok = ("s", eng.T.intern(("elem", self.T, k)))
        p = path_of(eng, t, self.T)
        direct = t[0] == "s" and eng.struct(t)[0] == "elem" and eng.struct(t)[1] == self.T and eqn(eng, st, eng.struct(t)[2], k)
        self.ok("tokens are listed in order", direct, "tokens-order", "the list of raw tokens skips, repeats or reorders tokens")
        d = eng.struct(x) if x[0] == "s" else None
        ln = eng.fld(t, fidx(self.F, TOKEN, "len"), "len", "", TOKEN)
        end = num(L.add(aff(self.g(st, "sum")), aff(ln)))
        self.ok("a raw token comes with its own text", d is not None and d[:2] == ("app", "slice") and d[2] == self.X and eqn(eng, st, d[3], self.g(st, "sum")) and eqn(eng, st, d[4], end), "token-text", "a raw token is paired with another piece of text than its own")
        self.s(st, "k", num(L.shift(aff(k), 1))); self.s(st, "sum", end)


class Resh(Rec):
    """reshuffle_events: one output event per input event, except that a chain of forward parents is
    emitted outermost first where it begins, and its later members become holes"""
    def __init__(self, F, rep):
        super().__init__(); self.F, self.rep = F, rep
        self.n = [0] * 6
        self.chain = None
        self.vs = [v["name"] for v in F.adt(EVENT)["variants"]]
        self.START = self.vs.index("Start")
        sf = [f["name"] for f in F.adt(EVENT)["variants"][self.START]["fields"]]
        self.ity, self.ifp = sf.index("ty"), sf.index("forward_parent")

    def g(self, st, k): return st.mem[("G", k)]

    def s(self, st, k, v): st.mem[("G", k)] = v

    def ok(self, what, c, key, msg):
        if not self.eng.quiet: self.rep.ok("C01 C06" if key.startswith("chain") else "C01", what, c, "reshuffle:" + key, msg)

    def ev(self, i): return ("s", self.eng.T.intern(("elem", self.E, i)))

    def ty(self, i): return self.eng.fld(self.ev(i), self.ity, "ty", "Start", EVENT)

    def fp(self, i): return self.eng.fld(self.ev(i), self.ifp, "forward_parent", "Start", EVENT)

    def variant(self, st, v):
        if v[0] == "adt": return v[2]
        x = st.vars.get(v[1]) if v[0] == "s" else None
        return x if isinstance(x, int) else None

    def elem_idx(self, st, v):
        d = self.eng.struct(v) if v[0] == "s" else None
        return d[2] if d and d[0] == "elem" and d[1] == self.E else None

    # phases of one input event: 0 not yet decided, 1 chain being collected, 2 chain being emitted, 3 dealt with
    def ph(self, st): return self.g(st, "ph")[2]

    def on_result(self, eng, call, args, outs):
        m = call["method"]
        if m == "next":
            for st, v in outs:
                if not (v[0] == "adt" and v[1] == OPTION and v[2] == 1): continue
                x = v[3][0]
                i = self.g(st, "i")
                for y in (x[1] if x[0] == "tup" else (x,)):
                    if y[0] in ("ref", "rv"): y = eng.load(st, y)
                    k = self.elem_idx(st, y)
                    if k is not None and eqn(eng, st, k, i):
                        self.close(eng, st)
                        self.s(st, "cur", i)
                        self.s(st, "i", num(L.shift(aff(i), 1)))
                        self.s(st, "ph", mon(0)); self.s(st, "popped", mon(0))
                        if not eng.quiet: self.n[0] += 1
                        break
        elif m == "pop":
            for st, v in outs:
                if self.ph(st) == 0:
                    if v[0] == "adt" and v[2] == 1 and is_num(v[3][0]) and eqn(eng, st, v[3][0], self.g(st, "cur")): self.s(st, "ph", mon(3))
                    else: self.ok("only the hole that is reached is closed", False, "hole", "a hole is closed that is not the event at hand")
                elif self.ph(st) == 2:
                    self.ok("the event at hand is not left as a hole", self.g(st, "popped")[2] == 0 and eqn(eng, st, self.g(st, "hj"), const(0)), "hole-self", "a hole of the chain is closed before it is reached")
                    self.s(st, "popped", mon(1))
                else: self.ok("holes are closed once", False, "hole-twice", "a hole is closed although no hole is reached")

    def follow(self, eng, st, v):
        """what comes after the last member of the chain, when it is known whether it has a forward parent"""
        c = self.g(st, "cpos")
        self.s(st, "cend", mon({None: 0, 1: 1, 0: 2}[v]))
        if v == 1: self.s(st, "cnext", num(L.add(aff(c), aff(eng.fld(self.fp(c), 0, "0", "Some", OPTION)))))

    def on_variant(self, eng, st, i, idx, path):
        if path == OPTION and self.ph(st) == 1 and self.g(st, "cend")[2] == 0 and isinstance(idx, int) and ("s", i) == self.fp(self.g(st, "cpos")): self.follow(eng, st, idx)

    def close(self, eng, st):
        ph = self.ph(st)
        self.ok("no event is dropped", ph == 3 or ph == 2 and eqn(eng, st, self.g(st, "rj"), const(0)) and eqn(eng, st, self.g(st, "hj"), const(0)) and self.g(st, "popped")[2] == 1, "dropped", "an event is dropped, or a chain of forward parents is not emitted whole with the rest of it left as holes")

    def emit(self, eng, st, v, field, ghost):
        """v is field `field` of a member of the collected chain: it must be the next one, last first"""
        if self.ph(st) == 1:
            self.ok("a chain is followed to its end", self.g(st, "cend")[2] == 2, "chain-end", "a chain of forward parents is emitted before its end")
            self.s(st, "ph", mon(2)); self.s(st, "rj", self.g(st, "clen")); self.s(st, "hj", self.g(st, "clen"))
        if self.ph(st) != 2 or self.chain is None: return False
        want = num(L.shift(aff(self.g(st, ghost)), -1))
        if not eng.holds(st, aff(want)): return False
        x = eng.index(st, eng.load(st, self.chain), want)
        self.s(st, ghost, want)
        x = eng.fld(x, int(field), field)
        return x == v or is_num(x) and is_num(v) and eqn(eng, st, x, v)

    def on_push(self, eng, st, ref, item, fn):
        if not fn.path.startswith(MOD): return
        ph, cur = self.ph(st), self.g(st, "cur")
        k = self.elem_idx(st, item)
        if k is None and item[0] == "adt" and item[1] == EVENT and item[2] != self.START and ph == 0:      # rebuilt from its fields
            ev = self.ev(cur)
            fs = [f["name"] for f in self.F.adt(EVENT)["variants"][item[2]]["fields"]]
            if all(x == eng.fld(ev, j, n, self.vs[item[2]], EVENT) for j, (x, n) in enumerate(zip(item[3], fs))): k = cur
        if k is not None:
            e = self.ev(k)
            v = self.variant(st, e)
            plain = v is not None and v != self.START or self.variant(st, self.fp(k)) == 0
            if v is None: plain = plain or isinstance(st.vars.get(e[1]), (set, frozenset)) and self.START in st.vars[e[1]]
            self.ok("an event outside chains is copied once", ph == 0 and eqn(eng, st, k, cur) and plain, "copy", "an event is copied twice, out of order, or although it has a forward parent")
            self.s(st, "ph", mon(3))
            if not eng.quiet: self.n[1] += 1
        elif item[0] == "adt" and item[1] == EVENT:
            if item[2] == self.START and ph == 0 and item[3][self.ity] == self.ty(cur) and self.variant(st, self.fp(cur)) == 0:
                self.s(st, "ph", mon(3)); return
            good = item[2] == self.START and self.emit(eng, st, item[3][self.ity], "1", "rj")
            self.ok("a chain is emitted outermost first", good, "chain-order", "the nodes of a forward parent chain are not emitted exactly once each, last first")
            if not eng.quiet: self.n[2] += 1
        elif item[0] == "tup" and len(item[1]) == 2 and is_num(item[1][0]):
            x, ty = item[1]
            if ph == 0:
                n = eng.reflen(st, eng.deref(ref))
                self.ok("a chain starts at the event at hand", eqn(eng, st, x, cur) and eqn(eng, st, num(n), const(0)) and self.variant(st, self.fp(cur)) == 1, "chain-start", "a chain of forward parents does not start, empty, at the event at hand")
                self.chain = eng.deref(ref)
                self.s(st, "clen", const(1)); self.s(st, "ph", mon(1))
            else:
                self.ok("a chain follows the forward parents", ph == 1 and self.g(st, "cend")[2] == 1 and eqn(eng, st, x, self.g(st, "cnext")), "chain-next", "a chain of forward parents does not go on at the next forward parent")
                self.s(st, "clen", num(L.shift(aff(self.g(st, "clen")), 1)))
            self.s(st, "cpos", x)
            self.follow(eng, st, self.variant(st, self.fp(x)))
            self.ok("a chain keeps the kinds of its nodes", ty == self.ty(x), "chain-kind", "the node kind of a chain member is not that of its event")
            if not eng.quiet: self.n[3] += 1
        elif item[0] in ("s", "i") and is_num(item):
            self.ok("the rest of a chain becomes holes", self.emit(eng, st, item, "0", "hj"), "chain-holes", "the members of a forward parent chain do not become holes, innermost on top")
            if not eng.quiet: self.n[4] += 1


def reshuffle(F, M, rep, ctx):
    ck = Resh(F, rep)
    eng = Eng(F, M, ck); ck.eng = eng
    st = St()
    ck.E = eng.fresh("events")
    ec = eng.fresh("ev&")
    st.mem[("D", ec[1])] = ck.E
    for k in ("i", "cur", "cpos", "clen", "cnext", "rj", "hj"): st.mem[("G", k)] = const(0)
    st.mem[("G", "ph")] = mon(3); st.mem[("G", "popped")] = st.mem[("G", "cend")] = mon(0)
    outs = eng.run(F.fn(MOD + "reshuffle_events"), [ec], st)
    rep.ok("C01", "events are put in order", bool(outs) and all(ck.n[:5]), "reshuffle:none", "reshuffle_events does not treat plain events, chains and holes (%s)" % ck.n)
    for s, v in outs:
        ck.close(eng, s)
        ck.ok("all events are put in order", eqn(eng, s, ck.g(s, "i"), num(eng.seqlen(ck.E))), "all", "reshuffle_events returns before the last event")
    ctx.account(eng)


def top(F, M, rep, ctx):
    ck = Top(F, rep)
    eng = Eng(F, M, ck); ck.eng = eng
    st = St()
    ck.T, ck.E, ck.R, ck.X = eng.fresh("tokens"), eng.fresh("events"), eng.fresh("ordered"), eng.fresh("text")
    ck.W, ck.B = eng.fresh("is_whitespace"), eng.fresh("whitespace_binder")
    ck.b = eng.fresh("builder")
    tc, ec = eng.fresh("tok&"), eng.fresh("ev&")
    st.mem[("D", tc[1])], st.mem[("D", ec[1])] = ck.T, ck.E
    st.mem[("G", "k")] = st.mem[("G", "sum")] = const(0)
    eng.addfact(st, L.shift(aff(num(eng.seqlen(ck.R))), -1))                # a parse records at least the root (C03)
    outs = eng.run(F.fn(MOD + "convert"), [ck.X, tc, ec, ck.W, ck.B, ck.b], st)
    rep.ok("C01", "convert converts", bool(outs) and ck.went > 0 and ck.pushes > 0, "convert:top", "convert does not convert the root")
    bad = [k for k, v in ck.asserts.items() if not v and "slice" not in k[0]]
    rep.ok("C26 C01", "convert stays in bounds", not bad, "convert:top-bounds", "convert may index out of bounds: %s" % bad[:1])
    ctx.account(eng)


# ------------------------------------------------------------------ C01: the stages of a parse fit together
class Plumb(Rec):
    def __init__(self, F, rep, what):
        super().__init__(); self.F, self.rep, self.what, self.calls, self.spaces = F, rep, what, [], None

    def ok(self, props, what, c, key, msg):
        if not self.eng.quiet: self.rep.ok(props, "%s: %s" % (self.what, what), c, "%s:%s" % (self.what, key), "%s %s" % (self.what, msg))

    def res(self, st, v):
        for _ in range(4):
            if v[0] in ("ref", "rv"): v = self.eng.load(st, v)
            elif v[0] == "s" and ("D", v[1]) in st.mem: v = st.mem[("D", v[1])]
            else: break
        return v

    def place(self, v): return self.eng.deref(v) if v[0] in ("ref", "s") else v

    def same(self, st, a, b): return self.place(a) == self.place(b) or self.res(st, a) == self.res(st, b)

    def intercept(self, eng, st, name, args, call):
        n = name.split("::")
        if name == "fall_parse::lex_engine::lex":
            self.calls.append("lex")
            self.ok("C01", "the text that is parsed is lexed", self.same(st, args[1], self.text) and self.same(st, args[0], self.lexer), "lex", "lexes another text, or with another lexer, than it parses")
            return [(st, self.tokens)]
        if name == "fall_parse::lex_engine::relex":
            self.calls.append("relex")
            self.ok("C01 C09", "the new text is relexed from the previous tokens and the edit", self.same(st, args[1], self.oldt) and self.same(st, args[2], self.edit) and self.same(st, args[3], self.text) and self.same(st, args[0], self.lexer), "relex", "does not relex the new text from the previous tokens and the edit")
            return [(st, ("tup", (self.tokens, eng.fresh("region"))))]
        if n[-1] == "salvage_segments":
            self.calls.append("salvage")
            self.ok("C08", "subtrees of the previous parse are salvaged", self.same(st, args[0], self.olde) and self.same(st, args[1], self.oldt) and self.same(st, args[3], self.edit), "salvage", "does not salvage from the previous events, the previous tokens and the edit")
            self.ws(eng, st, args[2], call, "salvage", True)
            return [(st, self.salvaged)]
        if name == "fall_parse::syn_engine::expr::parse":
            self.calls.append("parse")
            prev, g, lang, text, toks = args
            self.ok("C01", "the tokens of the text are parsed", self.same(st, toks, self.tokens) and self.same(st, text, self.text), "parse-tokens", "parses other tokens or another text than were lexed")
            d = self.res(st, prev)
            if self.old:
                good = d[0] == "adt" and d[2] == 1 and d[3][0][0] == "tup" and d[3][0][1][0] == self.salvaged and self.same(st, d[3][0][1][1], self.olde)
                self.ok("C08", "salvaged subtrees go with the events they come from", good, "parse-prev", "does not give the parser what was salvaged together with the previous events")
            else: self.ok("C08", "a full parse reuses nothing", d == ("adt", OPTION, 0, ()), "parse-fresh", "reuses subtrees in a full parse")
            GR = "fall_parse::syn_engine::Grammar"
            q = lambda k: self.res(st, eng.fld(g, fidx(self.F, GR, k), k, "", GR))
            pd = "fall_parse::ParserDefinition"
            want = lambda k: eng.fld(eng.load(st, eng.deref(self.parser)), fidx(self.F, pd, k), k, "", pd)
            self.ok("C01 C07", "the grammar is the parser's own", q("node_types") == want("node_types") and q("rules") == want("syntactical_rules") and eqn(eng, st, q("start_rule"), const(0)), "grammar", "parses with another grammar than the parser's, or from another rule than its first")
            return [(st, ("tup", (self.events, eng.fresh("ticks"))))]
        if name == MOD + "convert":
            self.calls.append("convert")
            self.ok("C01", "the recorded events and all tokens are converted", self.same(st, args[0], self.text) and self.same(st, args[1], self.tokens) and self.same(st, args[2], self.events) and self.same(st, args[5], self.b), "convert", "does not convert all tokens of the text with the events of this parse into the given builder")
            self.ws(eng, st, args[3], call, "convert", False)
            self.binder(eng, st, args[4], call)
            return [(st, UNIT)]
        return None

    def ws(self, eng, st, f, call, key, tok):
        """whitespace means the same everywhere: the language's flag of the kind"""
        if eng.quiet: return
        s = st.copy()
        x = eng.fresh("x")
        ty = eng.fld(x, fidx(self.F, TOKEN, "ty"), "ty", "", TOKEN) if tok else x
        outs = eng.call_closure(s, f, [x], call)
        good = bool(outs)
        for s2, v in outs:
            t = eng.show(v, 12)
            good &= "whitespace_like" in t and "node_type_info" in t and eng.show(ty, 12) in t and eng.show(self.lang, 5) in t
            good &= v[0] == "s" and eng.struct(v)[0] == "f" and eng.struct(v)[2] == "whitespace_like"
        self.ok("C01 C08", "whitespace is what the language says", good, "ws:" + key, "does not take for whitespace exactly the kinds the language declares as such")

    def elems(self, eng, v, out, depth=0):
        """list elements mentioned in a value, with the fields taken of them"""
        if depth > 12: return out
        if v[0] == "s":
            d = eng.T.structs[v[1]]
            p = []
            while d[0] == "f" and d[3][0] == "T":
                p.append(d[2]); d = eng.T.structs[d[3][1]]
            if d[0] == "elem": out.add((d[1], d[2], p[-1] if p else None)); return out
            for x in d[2:] if d[0] == "app" else (): self.elems(eng, x, out, depth + 1)
        elif v[0] == "i":
            for k, _ in v[1]: self.elems(eng, ("s", k), out, depth + 1)
        elif v[0] in ("adt", "tup"):
            for x in v[-1]: self.elems(eng, x, out, depth + 1)
        elif v[0] == "rv": self.elems(eng, v[1], out, depth + 1)
        elif v[0] == "ref":
            try: self.elems(eng, eng.load(self.cur, v), out, depth + 1)
            except (CheckError, KeyError): out.add((v, None, None))
        return out

    def on_push(self, eng, st, ref, item, fn):
        if eng.quiet or self.spaces is None: return
        self.cur = st
        good = item[0] == "tup" and len(item[1]) == 2
        if good:
            a, b = self.elems(eng, item[1][0], set()), self.elems(eng, item[1][1], set())
            good = len(a) == 1 and len(b) == 1
            if good:
                (x, k, p), (y, l, q) = *a, *b
                good = x == y and k == l and (p, q) == ("0", "1") and k is not None and eqn(eng, st, k, num(eng.reflen(st, ref)))
        self.listed &= good

    def binder(self, eng, st, f, call):
        if eng.quiet: return
        s = st.copy()
        ty, ld = eng.fresh("ty"), eng.fresh("leading")
        sp = eng.fresh("spaces")
        n = num(eng.seqlen(sp))
        cell = eng.fresh("spaces&"); s.mem[("D", cell[1])] = sp
        PD, EX = "fall_parse::ParserDefinition", "fall_parse::Expr"
        pv = eng.load(st, eng.deref(self.parser))
        pf = lambda k: eng.fld(pv, fidx(self.F, PD, k), k, "", PD)
        wb = pf("whitespace_binder")
        first = ("s", eng.T.intern(("elem", pf("syntactical_rules"), const(0))))
        v = vidx(self.F, EX, "Pub")
        i = [q["name"] for q in self.F.adt(EX)["variants"][v]["fields"]].index("ty")
        tref = eng.fld(first, i, "ty", "Pub", EX)
        root = ("s", eng.T.intern(("elem", pf("node_types"), tref)))
        self.spaces, self.listed = sp, True
        outs = eng.call_closure(s, f, [ty, cell, ld], call)
        self.spaces = None
        good = file_ = bool(outs)
        asked = 0
        for s2, v in outs:
            d = eng.decide(s2, eng.cmp("Eq", ty, root))
            if d is True:
                file_ = file_ and is_num(v) and eqn(eng, s2, v, n)
                continue
            x = eng.struct(v) if v[0] == "s" else ()
            good = good and d is False and x[:2] == ("app", "<call>") and len(x) == 6 and x[2] == wb and x[3] == ty and x[5] == ld and eqn(eng, s2, num(eng.seqlen(x[4])), n)
            asked += 1
        self.ok("C01 C29", "the file takes all of the whitespace next to it", file_, "binder-file", "lets the file leave whitespace to nobody")
        self.ok("C29", "other nodes ask the language's binder", good and asked > 0, "binder-other", "does not ask the language's whitespace binder, with the same node kind and side, how much a node takes")
        self.ok("C29", "the binder sees the whitespace tokens in order", self.listed, "binder-list", "does not show the language's binder the whitespace tokens one by one with kind and text")


def plumbing(F, M, rep, ctx):
    INC = "fall_parse::IncrementalData"
    for name, old in (("fall_parse::parse", False), ("fall_parse::reparse", True)):
        ck = Plumb(F, rep, name.split("::")[-1])
        eng = Eng(F, M, ck); ck.eng = eng; ck.old = old
        fn = F.fn(name)
        st = St()
        argv = {}
        for t, x in fn.locals[1:fn.argc + 1]: argv.setdefault(strip_ty(t["s"]), eng.fresh(x or "a"))
        by = lambda frag: next((v for k, v in argv.items() if frag in k), None)
        ck.lang, ck.lexer, ck.parser, ck.text, ck.b, ck.edit = by("Language"), by("RegexLexer"), by("ParserDefinition"), by("::Text<") or by("text::Text"), by("TreeBuilder"), by("TextEdit")
        if None in (ck.lang, ck.lexer, ck.parser, ck.text, ck.b): raise CheckError("anchor missing: parameters of %s" % name)
        ck.tokens, ck.events, ck.salvaged = eng.fresh("tokens"), eng.fresh("events"), eng.fresh("salvaged")
        if old:
            inc = by("Any")
            ck.oldt, ck.olde = (eng.fresh("oldtokens"), eng.fresh("oldevents"))
            cell = eng.fresh("inc")
            st.mem[("D", cell[1])] = mkadt(F, INC, tokens=ck.oldt, events=ck.olde)
            ck_inc = cell
            base = ck.intercept
            def icpt(e, s, n, a, c, base=base, cell=cell):
                if n.split("::")[-1] == "downcast_ref": return [(s, ("adt", OPTION, 1, (cell,)))]
                return base(e, s, n, a, c)
            ck.intercept = icpt
        vals = [argv[strip_ty(t["s"])] for t, x in fn.locals[1:fn.argc + 1]]
        outs = eng.run(fn, vals, st)
        want = ["relex", "salvage", "parse", "convert"] if old else ["lex", "parse", "convert"]
        ck.ok("C01", "all stages run, once", bool(outs) and sorted(set(ck.calls)) == sorted(want) and all(ck.calls.count(x) == len(outs) or ck.calls.count(x) == 1 for x in want), "stages", "does not run each stage of a parse once (%s)" % ck.calls)
        for s, v in outs:
            x = v[3][0] if v[0] == "adt" and v[1] == OPTION and v[2] == 1 else None
            d = ck.res(s, x) if x is not None else None
            good = d is not None and d[0] == "adt" and d[1] == INC and ck.res(s, d[3][fidx(F, INC, "tokens")]) == ck.tokens and ck.res(s, d[3][fidx(F, INC, "events")]) == ck.events
            ck.ok("C08 C09", "the tokens and events of this parse are kept for the next", good, "kept", "does not keep the tokens and events of this parse for the next edit")
        ctx.account(eng)


class Lang(Plumb):
    def intercept(self, eng, st, name, args, call):
        m, tr = call["method"], (call["trait"] or "").split("::")[-1]
        if tr == "LanguageImpl" and m in ("parse", "reparse"):
            self.calls.append(m)
            if m == "parse":
                tx, mt, b = args[1:]
                fine = True
            else:
                inc, ed, tx, mt, b = args[1:]
                fine = self.same(st, ed, self.edit) and self.prev is not None and self.place(inc) == self.place(self.prev)
            d = self.res(st, tx)
            d = eng.struct(d) if d[0] == "s" else None
            good = d is not None and d[:2] == ("app", "as_text") and d[2] == self.newt
            self.ok("C01 C08", "the text the file will have is what is parsed", good, "text", "parses another text than the file is given")
            self.ok("C08", "an edit is parsed with the previous parse of the file", fine, "incremental", "reparses with another edit or other data than the file's")
            self.bld = self.res(st, b)
            return [(st, self.inc2)]
        if m == "as_text" or name.endswith("TextBuf::as_text"): return [(st, eng.app("as_text", self.res(st, args[0])))]
        if name == "fall_text::text_edit::TextEdit::apply":
            d = self.res(st, args[1]); d = eng.struct(d) if d[0] == "s" else None
            self.ok("C01 C15", "the edit is applied to the file's text", self.same(st, args[0], self.edit) and d is not None and d[:2] == ("app", "as_text") and d[2] == self.oldtext, "apply", "does not apply the edit to the text of the file that is edited")
            return [(st, self.newt)]
        if m == "into" and len(args) == 1: return [(st, args[0])]
        if name == FILE + "::new":
            lang, tx, mt, inc, b = args
            self.calls.append("file")
            self.ok("C01", "the file gets the parsed text, the tree and the data of the parse", self.res(st, tx) == self.newt and self.res(st, inc) == self.inc2, "file", "does not give the file the text and data of the parse")
            return [(st, eng.fresh("file"))]
        return None


class Impl(Plumb):
    def intercept(self, eng, st, name, args, call):
        if name in ("fall_parse::parse", "fall_parse::reparse"):
            self.hit.append(name.split("::")[-1])
            self.ok("C01", "all arguments are passed on", [self.place(x) for x in args[3:]] == [self.place(x) for x in self.argv[1:]], "args", "does not pass its arguments on to the parsing engine in order")
            slf = eng.deref(self.argv[0])
            def own(x): x = self.place(x); return x[0] == "ref" and x[1] == slf[1]
            self.ok("C01", "the language's own lexer and grammar are used", own(args[1]) and own(args[2]), "own", "does not parse with the language's own lexer and grammar")
            return [(st, self.res_)]
        return None


def language(F, M, rep, ctx):
    LG = "fall_tree::lang::Language"
    for what in ("parse", "reparse-inc", "reparse-none"):
        ck = Lang(F, rep, "Language::" + what)
        eng = Eng(F, M, ck); ck.eng = eng
        st = St()
        ck.newt, ck.oldtext, ck.edit, ck.inc2, ck.prev = eng.fresh("text"), eng.fresh("oldtext"), eng.fresh("edit"), eng.fresh("incremental"), None
        slf = eng.fresh("language")
        if what == "parse": outs = eng.run(F.fn(LG + "::parse"), [slf, ck.newt], st)
        else:
            ck.prev = eng.fresh("prev")
            inc = ("adt", OPTION, 1, (ck.prev,)) if what == "reparse-inc" else ("adt", OPTION, 0, ())
            imp = mkadt(F, FILEIMPL, lang=eng.fresh("lang"), metrics=eng.fresh("metrics"), text=ck.oldtext, root=const(0), nodes=eng.fresh("nodes"))
            fc = eng.fresh("file")
            st.mem[("D", fc[1])] = mkadt(F, FILE, imp=imp, incremental_data=inc)
            base = ck.intercept
            def icpt(e, s, n, a, c, base=base, inc=inc):
                if n == FILE + "::incremental_data": return [(s, inc)]
                return base(e, s, n, a, c)
            ck.intercept = icpt
            outs = eng.run(F.fn(LG + "::reparse"), [slf, fc, ck.edit], st)
        want = {"parse": ["parse", "file"], "reparse-inc": ["reparse", "file"], "reparse-none": ["parse", "file"]}[what]
        ck.ok("C01 C08", "a text is parsed once and made a file", bool(outs) and ck.calls == want, "stages", "does not parse the text once and make it a file (%s)" % ck.calls)
        ctx.account(eng)
    n = 0
    for i in F.impls:
        if not i["trait"] or i["trait"].split("::")[-1] != "LanguageImpl": continue
        n += 1
        for it in i["items"]:
            m = it.split("::")[-1]
            if m not in ("parse", "reparse"): continue
            f = F.fns[it]
            who = "%s of %s" % (m, f.crate if hasattr(f, "crate") else it)
            ck = Impl(F, rep, it)
            eng = Eng(F, M, ck); ck.eng = eng
            ck.hit, ck.res_ = [], eng.fresh("parsed")
            ck.argv = [eng.fresh(x or "a") for t, x in f.locals[1:f.argc + 1]]
            outs = eng.run(f, ck.argv, St())
            ck.ok("C01 C08", "a language parses with the engine", bool(outs) and ck.hit == [m] and all(v == ck.res_ for _, v in outs), "engine", "does not parse with the engine's own %s" % m)
            ctx.account(eng)
    if n < 5: raise CheckError("anchor missing: LanguageImpl")


def binders(F, M, rep, ctx):
    """a language's whitespace binder takes at most what there is"""
    n = 0
    for f in sorted(F.fns.values(), key=lambda f: f.path):
        if f.kind != "fn" or f.path.split("::")[-1] not in ("whitespace_binder", "no_binder") or f.argc != 3: continue
        b = Bench(F, M)
        sp = b.eng.fresh("spaces")
        outs = b.eng.run(f, [b.eng.fresh("ty"), sp, b.eng.fresh("leading")], b.st)
        m = b.eng.seqlen(sp)
        rep.ok("C01", "%s is bounded" % f.path, bool(outs) and all(b.eng.holds(st, L.add(m, aff(v), -1)) for st, v in outs), "binder:" + f.path, "%s may ask for more whitespace tokens than there are" % f.path)
        ctx.account(b.eng)
        n += 1
    if not n: raise CheckError("anchor missing: whitespace binders")


# ------------------------------------------------------------------ C02: the builder
B_ = "fall_tree::node::tree_builder::"
NODEDATA, NODEID = B_ + "NodeData", B_ + "NodeId"


class Shape:
    """a builder with open nodes `depth` deep (0: none, 1: one, 2: a node p with an open child t and
    any number of further nodes before, between and after), and what an operation did to it"""
    def __init__(self, F, M, depth, empty=False):
        self.b = b = Bench(F, M)
        self.F, e = F, b.eng
        self.depth = depth
        A, B, C, S = (e.fresh(x) for x in ("before", "between", "after", "outer"))
        self.chunks = [A, B, C, S]
        self.pos = e.fresh("pos")
        mk = lambda l: self.node(e.fresh(l + ".ty"), e.fresh(l + ".parent"), e.fresh(l + ".children"), b.mkrange(l))
        self.p, self.t = mk("p"), mk("t")
        nodes = [("ck", A[1])]
        la = aff(num(e.seqlen(("seq", tuple(nodes)))))
        self.pi = num(la)
        stack = []
        if depth == 2:
            nodes += [("it", self.p), ("ck", B[1])]
            stack += [("ck", S[1]), ("it", self.nid(self.pi))]
        self.ti = num(e.seqlen(("seq", tuple(nodes))))
        if depth >= 1:
            nodes += [("it", self.t), ("ck", C[1])]
            stack += [("it", self.nid(self.ti))]
        if empty: nodes = []
        self.nodes0, self.stack0 = tuple(nodes), tuple(stack)
        self.n = num(e.seqlen(("seq", self.nodes0)))
        def eqf(x, y):
            e.addfact(b.st, L.add(aff(x), aff(y), -1)); e.addfact(b.st, L.add(aff(y), aff(x), -1))
        # invariant: the innermost open node ends where the builder stands; an open node ends where its open child starts
        if depth >= 1: eqf(self.rg(self.t)[1], self.pos)
        if depth == 2: eqf(self.rg(self.p)[1], self.rg(self.t)[0])
        v = [None] * 3
        v[fidx(F, BUILDER, "nodes")], v[fidx(F, BUILDER, "in_progress")], v[fidx(F, BUILDER, "pos")] = ("seq", self.nodes0), ("seq", self.stack0), self.pos
        self.builder = ("adt", BUILDER, 0, tuple(v))

    def node(self, ty, parent, children, range_):
        v = [None] * 4
        for k, x in (("ty", ty), ("parent", parent), ("children", children), ("range", range_)): v[fidx(self.F, NODEDATA, k)] = x
        return ("adt", NODEDATA, 0, tuple(v))

    def nid(self, i): return i          # single-field structures are their field

    def f(self, n, k): return self.b.eng.fld(n, fidx(self.F, NODEDATA, k), k, "", NODEDATA)

    def rg(self, n): return self.b.rng(self.f(n, "range"))

    def run(self, name, vals):
        fn = self.F.fn(BUILDER + "::" + name)
        if fn.argc and fn.locals[1][0]["k"] == "ref":
            self.cell = self.b.cell(self.builder)
            vals = [self.cell] + vals
        else:
            self.cell = None; vals = [self.builder] + vals
        self.b.argv = vals
        self.b.outs = self.b.eng.run(fn, vals, self.b.st)
        return self.b.outs

    def after(self, st):
        v = st.mem[("D", self.cell[1])]
        e = self.b.eng
        g = lambda k: e.fld(v, fidx(self.F, BUILDER, k), k, "", BUILDER)
        return e.seq(g("nodes")), e.seq(g("in_progress")), g("pos")

    # comparisons
    def same(self, st, a, b):
        if a == b: return True
        if is_num(a) and is_num(b): return self.b.eq(st, a, b)
        if a[0] == b[0] == "adt": return a[1:3] == b[1:3] and len(a[3]) == len(b[3]) and all(self.same(st, x, y) for x, y in zip(a[3], b[3]))
        if "seq" in (a[0], b[0]):
            x, y = self.b.eng.seq(a), self.b.eng.seq(b)
            return self.seqs(st, x, y)
        e = self.b.eng
        for x, y in ((a, b), (b, a)):
            if x[0] == "adt" and x[1] in (RANGE, NODEDATA) and y[0] != "adt":
                fs = self.F.adt(x[1])["variants"][0]["fields"]
                return all(self.same(st, x[3][i], e.fld(y, i, f["name"], "", x[1])) for i, f in enumerate(fs))
        return False

    def seqs(self, st, x, y):
        return len(x) == len(y) and all(c[0] == d[0] and (self.same(st, c[1], d[1]) if c[0] == "it" else c == d) for c, d in zip(x, y))


def builder(F, M, rep, ctx):
    def ok(what, c, key, msg): rep.ok("C02 C01" if key.startswith(("leaf", "finish")) else "C02", what, c, "builder:" + key, msg)
    some = lambda x: ("adt", OPTION, 1, (x,))
    none = ("adt", OPTION, 0, ())
    nochild = ("seq", ())
    def rng(F, s, e):
        v = [None, None]; v[fidx(F, RANGE, "start")], v[fidx(F, RANGE, "end")] = s, e
        return ("adt", RANGE, 0, tuple(v))
    plus = lambda a, b: num(L.add(aff(a), aff(b)))
    rec = {}

    def quiet(s, key, allow=None):
        """no failing run-time check, no panic (except on states that `allow` accepts)"""
        bad = [k for k, g in s.b.ck.asserts.items() if not g] + [p for p in s.b.ck.panics if not (allow and allow(p))]
        rep.ok("C26 C02", "no failure in the builder", not bad, "builder:panic:" + key, "TreeBuilder::%s can fail on a well-formed builder (%s)" % (key, bad[:1]))

    def addc(n, s, i): return s.node(s.f(n, "ty"), s.f(n, "parent"), ("seq", s.b.eng.seq(s.f(n, "children")) + (("it", s.nid(i)),)), s.f(n, "range"))
    def grown(n, s, end): return s.node(s.f(n, "ty"), s.f(n, "parent"), s.f(n, "children"), rng(F, s.rg(n)[0], end))

    for depth in (1, 2):
        s = Shape(F, M, depth)
        ty, ln = s.b.eng.fresh("ty"), s.b.eng.fresh("len")
        outs = s.run("leaf", [ty, ln])
        end = plus(s.pos, ln)
        t = grown(addc(s.t, s, s.n), s, end)
        want = tuple(("it", t) if c == ("it", s.t) else c for c in s.nodes0) + (("it", s.node(ty, some(s.nid(s.ti)), nochild, rng(F, s.pos, end))),)
        for st, _ in outs:
            nd, sk, pos = s.after(st)
            ok("a leaf is appended to the innermost open node, which grows by its length, and nothing else changes", s.seqs(st, nd, want), "leaf:nodes", "TreeBuilder::leaf does not add exactly one childless node [pos, pos + len) as the last child of the innermost open node, with the parent link and the parent's range in step")
            ok("a leaf leaves the open nodes alone", s.seqs(st, sk, s.stack0), "leaf:stack", "TreeBuilder::leaf changes the stack of open nodes")
            ok("a leaf moves the builder by its length", s.b.eq(st, pos, end), "leaf:pos", "TreeBuilder::leaf does not move the position by the leaf's length")
        ok("a leaf can be added", bool(outs), "leaf:none", "TreeBuilder::leaf never returns"); quiet(s, "leaf"); ctx.account(s.b.eng)

        s = Shape(F, M, depth)
        ty = s.b.eng.fresh("ty")
        outs = s.run("start_internal", [ty])
        want = tuple(("it", addc(s.t, s, s.n)) if c == ("it", s.t) else c for c in s.nodes0) + (("it", s.node(ty, some(s.nid(s.ti)), nochild, rng(F, s.pos, s.pos))),)
        for st, _ in outs:
            nd, sk, pos = s.after(st)
            ok("a node is opened, empty, as the last child of the innermost open node", s.seqs(st, nd, want), "start:nodes", "TreeBuilder::start_internal does not add exactly one empty node at the position as the last child of the innermost open node, with the parent link in step")
            ok("an opened node becomes the innermost", s.seqs(st, sk, s.stack0 + (("it", s.nid(s.n)),)), "start:stack", "TreeBuilder::start_internal does not make the new node the innermost open one")
            ok("opening a node does not move", s.b.eq(st, pos, s.pos), "start:pos", "TreeBuilder::start_internal moves the position")
        ok("a node can be opened", bool(outs), "start:none", "TreeBuilder::start_internal never returns"); quiet(s, "start_internal"); ctx.account(s.b.eng)

    s = Shape(F, M, 0, empty=True)
    ty = s.b.eng.fresh("ty")
    outs = s.run("start_internal", [ty])
    for st, _ in outs:
        nd, sk, pos = s.after(st)
        ok("the first node is the root", s.seqs(st, nd, (("it", s.node(ty, none, nochild, rng(F, s.pos, s.pos))),)) and s.seqs(st, sk, (("it", s.nid(const(0))),)) and s.b.eq(st, pos, s.pos), "root", "the first node a TreeBuilder opens is not node 0, empty, without a parent")
    ok("a root can be opened", bool(outs), "root:none", "TreeBuilder::start_internal never returns on an empty builder"); quiet(s, "start_internal"); ctx.account(s.b.eng)

    s = Shape(F, M, 2)
    outs = s.run("finish_internal", [])
    want = tuple(("it", grown(s.p, s, s.rg(s.t)[1])) if c == ("it", s.p) else c for c in s.nodes0)
    for st, _ in outs:
        nd, sk, pos = s.after(st)
        ok("closing a node makes its parent grow by it, and changes nothing else", s.seqs(st, nd, want), "finish:nodes", "TreeBuilder::finish_internal does not extend the parent's range to the end of the closed node (or changes something else)")
        ok("closing a node makes its parent the innermost", s.seqs(st, sk, s.stack0[:-1]), "finish:stack", "TreeBuilder::finish_internal does not close exactly the innermost open node")
        ok("closing a node does not move", s.b.eq(st, pos, s.pos), "finish:pos", "TreeBuilder::finish_internal moves the position")
    ok("a node can be closed", bool(outs), "finish:none", "TreeBuilder::finish_internal never returns"); quiet(s, "finish_internal"); ctx.account(s.b.eng)

    s = Shape(F, M, 1)
    outs = s.run("finish_internal", [])
    for st, _ in outs:
        nd, sk, pos = s.after(st)
        ok("closing the root changes nothing but the stack", s.seqs(st, nd, s.nodes0) and s.seqs(st, sk, ()) and s.b.eq(st, pos, s.pos), "finish:root", "TreeBuilder::finish_internal on the root changes a node or leaves it open")
    ok("the root can be closed", bool(outs), "finish:root-none", "TreeBuilder::finish_internal never returns on the root"); quiet(s, "finish_internal"); ctx.account(s.b.eng)

    for depth in (0, 1, 2):
        s = Shape(F, M, depth)
        outs = s.run("finish", [])
        if depth: ok("a tree with open nodes is refused", not outs and bool(s.b.ck.panics), "finish-open", "TreeBuilder::finish accepts a tree with open nodes")
        else:
            ok("a finished tree is all the nodes", bool(outs) and all(s.seqs(st, s.b.eng.seq(r), s.nodes0) for st, r in outs), "finish-all", "TreeBuilder::finish does not return all nodes in order")
            quiet(s, "finish")
        ctx.account(s.b.eng)
    s = Shape(F, M, 0, empty=True)
    b = s.b
    outs = b.eng.run(F.fn(BUILDER + "::new"), [], b.st)
    g = lambda v, k: b.eng.fld(v, fidx(F, BUILDER, k), k, "", BUILDER)
    ok("a new builder is empty", bool(outs) and all(not b.eng.seq(g(v, "nodes")) and not b.eng.seq(g(v, "in_progress")) and b.eq(st, g(v, "pos"), const(0)) for st, v in outs), "new", "TreeBuilder::new is not empty, at position 0")
    ctx.account(b.eng)
    # nobody else touches the fields
    for f in F.fns.values():
        if f.path.startswith(BUILDER + "::") or f.path.startswith(B_ + "grow"): continue
        for what in writes(f):
            if what[0] in (BUILDER, NODEDATA) and f.crate.startswith("fall"): ok("only the builder writes nodes", False, "writer:" + f.path, "%s writes %s.%s" % (f.path, what[0].split("::")[-1], what[1]))


IMP = "fall_tree::node::imp::"
FILEIMPL, NODEIMPL, CHILDREN = IMP + "FileImpl", IMP + "NodeImpl", IMP + "NodeChildren"
FILE, NODE = "fall_tree::node::File", "fall_tree::node::Node"


def mkadt(F, adt, **kw):
    fs = F.adt(adt)["variants"][0]["fields"]
    v = [None] * len(fs)
    for k, x in kw.items(): v[fidx(F, adt, k)] = x
    if None in v: raise CheckError("anchor missing: fields of %s" % adt)
    return ("adt", adt, 0, tuple(v))


def reads(F, M, rep, ctx):
    """what a node says about itself is what the builder recorded under its id, in its own file"""
    def ok(what, c, key, msg): rep.ok("C02", what, c, "node:" + key, msg)

    def bench():
        b = Bench(F, M)
        e = b.eng
        b.nodes, b.textv, b.id = e.fresh("nodes"), e.fresh("text"), e.fresh("id")
        e.addfact(b.st, L.shift(L.add(aff(num(e.seqlen(b.nodes))), aff(b.id), -1), -1))
        b.root = e.fresh("root")
        imp = mkadt(F, FILEIMPL, lang=e.fresh("lang"), metrics=e.fresh("metrics"), text=b.textv, root=b.root, nodes=b.nodes)
        b.file = b.cell(mkadt(F, FILE, imp=imp, incremental_data=e.fresh("inc")), "file")
        b.impl = mkadt(F, NODEIMPL, id=b.id, file=b.file)
        b.nodev = ("adt", NODE, 0, (b.impl,))
        b.data = ("s", e.T.intern(("elem", b.nodes, b.id)))
        b.fl = lambda v, k: e.fld(v, fidx(F, NODEDATA, k), k, "", NODEDATA)
        return b

    def unref(b, st, v):
        for _ in range(4):
            if v[0] in ("ref", "rv"): v = b.eng.load(st, v)
            else: break
        return v

    def isnode(b, st, v, i):
        v = unref(b, st, v)
        im = b.eng.fld(v, 0, "0", "", NODE)
        g = lambda k: b.eng.fld(im, fidx(F, NODEIMPL, k), k, "", NODEIMPL)
        return b.eq(st, g("id"), i) and b.eng.deref(g("file")) == b.eng.deref(b.file)
    for name, test, msg in (
            ("ty", lambda b, st, v: v == b.fl(b.data, "ty"), "kind"),
            ("range", lambda b, st, v: all(b.eq(st, x, y) for x, y in zip(b.rng(v), b.rng(b.fl(b.data, "range")))), "range"),
            ("file", lambda b, st, v: b.eng.deref(v) == b.eng.deref(b.file), "file")):
        b = bench()
        fn = F.fn(NODE + "::" + name)
        b.run(fn, [b.nodev])
        ok("a node's %s is the recorded one" % msg, bool(b.outs) and all(test(b, st, v) for st, v in b.outs), name, "Node::%s is not the %s recorded for the node" % (name, msg))
        ctx.account(b.eng)
    # parent
    b = bench()
    b.run(F.fn(NODE + "::parent"), [b.nodev])
    par = b.fl(b.data, "parent")
    good = len(b.outs) >= 2
    for st, v in b.outs:
        k = st.vars.get(par[1]) if par[0] == "s" else None
        if k == 0: good &= v == ("adt", OPTION, 0, ())
        elif k == 1: good &= v[0] == "adt" and v[1] == OPTION and v[2] == 1 and isnode(b, st, v[3][0], b.eng.fld(par, 0, "0", "Some", OPTION))
        else: good = False
    ok("a node's parent is the recorded one, in the same file", good, "parent", "Node::parent is not the node recorded as the parent, in the same file")
    ctx.account(b.eng)
    # children: an iterator over the recorded ids, in order
    b = bench()
    b.run(F.fn(NODE + "::children"), [b.nodev])
    want = b.fl(b.data, "children")
    good = bool(b.outs)
    for st, v in b.outs:
        it = b.eng.fld(v, fidx(F, CHILDREN, "inner"), "inner", "", CHILDREN)
        fl = b.eng.fld(v, fidx(F, CHILDREN, "file"), "file", "", CHILDREN)
        good &= it[0] == "adt" and it[1].endswith("SliceIter") and it[3][1] == const(0) and b.eng.load(st, b.eng.deref(it[3][0])) in (want, ("slice", want, const(0), num(b.eng.seqlen(want)))) and b.eng.deref(fl) == b.eng.deref(b.file)
    ok("a node's children are the recorded ones, all and in order", good, "children", "Node::children does not go through the recorded children, all and in order")
    ctx.account(b.eng)
    nxt = implfn(F, CHILDREN, "Iterator", "next")
    b = bench()
    e = b.eng
    ids, pos = e.fresh("ids"), e.fresh("pos")
    it = ("adt", "models::SliceIter", 0, (b.cell(ids, "ids"), pos))
    cell = b.cell(mkadt(F, CHILDREN, file=b.file, inner=it), "children")
    outs = b.eng.run(nxt, [cell], b.st)
    good = len(outs) == 2
    for st, v in outs:
        after = e.fld(st.mem[("D", cell[1])], fidx(F, CHILDREN, "inner"), "inner", "", CHILDREN)
        if v[2] == 1: good &= isnode(b, st, v[3][0], ("s", e.T.intern(("elem", ids, pos)))) and b.eq(st, after[3][1], num(L.shift(aff(pos), 1)))
        else: good &= e.holds(st, L.add(aff(pos), e.seqlen(ids), -1))
    ok("iterating over children yields each once", good, "next", "NodeChildren::next does not yield the recorded children one by one, in the same file")
    ctx.account(b.eng)
    # text
    b = bench()
    hit = []
    class Txt(Rec):
        def intercept(self, eng, st, name, args, call):
            if name == TEXT + "::slice":
                if not eng.quiet: hit.append((st, args, call))
                return [(st, eng.app("slice", *[eng.load(st, a) if a[0] in ("ref", "rv") else a for a in args]))]
            if call["method"] == "as_text" or name.endswith("TextBuf::as_text"):
                return [(st, eng.app("as_text", eng.load(st, eng.deref(args[0]))))]
            return None
    b.ck = Txt(); b.ck.asserts, b.ck.panics = {}, []
    b.eng.ck = b.ck
    b.run(F.fn(NODE + "::text"), [b.nodev])
    full = b.eng.app("as_text", b.textv)
    good = bool(b.outs)
    for st, v in b.outs:
        d = b.eng.struct(v) if v[0] == "s" else None
        good &= d is not None and d[0] == "app" and d[1] == "slice" and d[2] == full and all(b.eq(st, x, y) for x, y in zip(b.rng(d[3]), b.rng(b.fl(b.data, "range"))))
    ok("a node's text is its range of the file's text", good, "text", "Node::text is not the file's text at the node's range")
    ctx.account(b.eng)
    # root
    b = bench()
    b.run(F.fn(FILE + "::root"), [b.file])
    ok("the root is the recorded root, in the same file", bool(b.outs) and all(isnode(b, st, v, b.root) for st, v in b.outs), "root", "File::root is not the recorded root")
    ctx.account(b.eng)
    # a new file: all nodes of the builder, node 0 as root, the text that was parsed
    b = Bench(F, M)
    e = b.eng
    nodes, t = e.fresh("nodes"), e.fresh("text")
    bld = mkadt(F, BUILDER, nodes=nodes, in_progress=("seq", ()), pos=e.fresh("pos"))
    inc = e.fresh("incremental")
    outs = b.eng.run(F.fn(FILE + "::new"), [e.fresh("lang"), t, e.fresh("metrics"), inc, bld], b.st)
    good = bool(outs)
    for st, v in outs:
        im = e.fld(v, fidx(F, FILE, "imp"), "imp", "", FILE)
        g = lambda k: e.fld(im, fidx(F, FILEIMPL, k), k, "", FILEIMPL)
        tv = g("text")
        d = e.struct(tv) if tv[0] == "s" else None
        good &= e.seq(g("nodes")) == e.seq(nodes) and b.eq(st, g("root"), const(0)) and (tv == t or d is not None and d[0] == "app" and "into" in d[1] and t in d) and e.fld(v, fidx(F, FILE, "incremental_data"), "incremental_data", "", FILE) == inc
    ok("a new file has the nodes that were built, node 0 as root, and the text", good, "new-file", "File::new does not keep the built nodes, node 0 as root, and the text")
    ctx.account(b.eng)
    # equality
    for neg in (False, True):
        b = bench()
        e = b.eng
        other = e.fresh("id2")
        same_file = not neg
        f2 = b.file if same_file else b.cell(e.fresh("file2"), "file2")
        im2 = mkadt(F, NODEIMPL, id=other, file=f2)
        eqf = implfn(F, NODEIMPL, "PartialEq", "eq")
        b.run(eqf, [b.impl, im2])
        if same_file: ok("nodes of a file are equal when their ids are", b.truth(("and", ("le", b.id, other), ("le", other, b.id))), "eq", "two nodes of the same file are not equal exactly when they are the same node")
        else:
            same = e.cmp("Eq", b.file, f2)
            same2 = e.cmp("Eq", e.deref(b.file), e.deref(f2))
            cmpd = lambda st: e.decide(st, same) is True or e.decide(st, same2) is True
            ok("nodes of different files differ", bool(b.outs) and all(not t or cmpd(s2) for st, v in b.outs for s2, t in e.fork(st.copy(), v)), "eq-file", "two nodes of different files may be equal")
        ctx.account(b.eng)


def writes(f):
    """(adt, field) of fields assigned, mutably borrowed or built by a function"""
    out = set()
    for b in f.blocks:
        for s in b["s"]:
            if s[0] != "=": continue
            for p in s[1]["p"]:
                if p[0] == "field" and len(p) > 3: out.add((p[3], p[2]))
            rv = s[2]
            if rv[0] == "ref" and rv[1] not in ("shared", "Shared", "fake"):
                for p in rv[2]["p"]:
                    if p[0] == "field" and len(p) > 3: out.add((p[3], p[2]))
            if rv[0] == "adt": out.add((rv[1], "*"))
    return out


def analyse(F, M, rep, ctx):
    conversion(F, M, rep, ctx)
    top(F, M, rep, ctx)
    reshuffle(F, M, rep, ctx)
    plumbing(F, M, rep, ctx)
    language(F, M, rep, ctx)
    binders(F, M, rep, ctx)
    builder(F, M, rep, ctx)
    reads(F, M, rep, ctx)
