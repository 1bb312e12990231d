"""C08, offering subtrees for reuse: abstract interpretation of salvage_segments.

Ghosts: ek events taken; tk/txt raw tokens passed and their total length; te the raw token at which the
token event at hand ends; cb/cs/nt first body event, start of text and raw tokens of the subtree at hand;
opk/prod/after edit pieces seen and the length of new text before and after the piece at hand."""
from absint import *
from facts import CheckError
import linear as L
from rules_text import fidx, vidx
from rules_tree import path_of, eqn, mon, EVENT, TOKEN, FNT

UNIT_ADD = ("core::ops::arith::Add", "core::ops::arith::AddAssign")

OP, RANGE, TEXT = "fall_text::text_edit::TextEditOp", "fall_text::text_range::TextRange", "fall_text::text::Text"
NUMS = ("ek", "tk", "txt", "te", "cb", "cs", "nt", "opk", "prod", "after")


class Salv(Checker):
    def __init__(self, F, rep):
        self.F, self.rep = F, rep
        self.inserts = self.n = 0
        self.vs = {v["name"]: i for i, v in enumerate(F.adt(EVENT)["variants"])}
        self.fs = {v["name"]: [f["name"] for f in v["fields"]] for v in F.adt(EVENT)["variants"]}
        self.COPY = vidx(F, OP, "Copy")

    def g(self, st, k): return st.mem[("G", k)]

    def s(self, st, k, v): st.mem[("G", k)] = v

    def ok(self, what, c, key, msg):
        if not self.eng.quiet: self.rep.ok("C08", "salvage: " + what, c, "salvage:" + key, "salvage_segments " + msg)

    def res(self, st, v):
        for _ in range(5):
            if v[0] in ("ref", "rv"): v = self.eng.load(st, v)
            elif v[0] == "s" and ("D", v[1]) in st.mem: v = st.mem[("D", v[1])]
            else: break
        return v

    def efld(self, e, var, name): return self.eng.fld(e, self.fs[var].index(name), name, var, EVENT)

    def elem(self, v, base):
        d = self.eng.struct(v) if v[0] == "s" else None
        return d[2] if d and d[0] == "elem" and d[1] == base else None

    # ---- raw tokens
    def passed(self, eng, st, k):
        """the length of raw token k is added to the position"""
        tk = self.g(st, "tk")
        self.ok("tokens are passed one by one", eqn(eng, st, k, tk), "token-order", "skips or repeats a raw token")
        inside = eng.holds(st, L.shift(L.add(aff(self.g(st, "te")), aff(tk), -1), -1))
        self.ok("only whitespace is passed between tokens", inside or self.g(st, "ws")[2] == 1, "token-extra", "passes a token that belongs to no event")
        n = eng.fld(("s", eng.T.intern(("elem", self.T, tk))), fidx(self.F, TOKEN, "len"), "len", "", TOKEN)
        self.s(st, "txt", num(L.add(aff(self.g(st, "txt")), aff(n))))
        self.s(st, "tk", num(L.shift(aff(tk), 1)))
        self.s(st, "ws", mon(0))

    def settled(self, eng, st):
        tk = self.g(st, "tk")
        if not eng.holds(st, L.add(aff(tk), aff(self.g(st, "te")), -1)): return False
        return self.g(st, "ws")[2] == 2 or eng.holds(st, L.add(aff(tk), aff(self.m), -1))

    def intercept(self, eng, st, name, args, call):
        m, tr = call["method"], call["trait"] or ""
        if tr in FNT and args and self.res(st, args[0]) == self.W:
            t = self.res(st, eng.tuple_args(st, args[1])[0])
            k = self.elem(t, self.T)
            if k is None or not eqn(eng, st, k, self.g(st, "tk")): return [(st, eng.app("is_ws", t))]
            b = st.copy()
            self.s(st, "ws", mon(1)); self.s(b, "ws", mon(2))
            return [(st, TRUE), (b, FALSE)]
        if tr in UNIT_ADD and len(args) == 2:
            p = path_of(eng, self.res(st, args[1]), self.T)
            if p is not None and p[1] and p[1][-1][1] == "len": self.passed(eng, st, p[0])
            return None
        if m == "insert" and "HashMap" in name: return self.insert(eng, st, args)
        if m in ("entry", "extend") and "HashMap" in name:
            self.ok("subtrees are offered by insertion", False, "other-write", "offers a subtree in another way than by inserting it")
        return None

    # ---- events and pieces
    def on_result(self, eng, call, args, outs):
        m = call["method"]
        if m in ("iter", "into_iter") and args:
            for st, v in outs:
                if v[0] == "adt" and v[1].endswith("SliceIter") and v[3][1] == const(0):
                    try: x = eng.load(st, eng.deref(v[3][0]))
                    except CheckError: continue
                    if x == self.P:
                        for k in ("opk", "prod", "after"): self.s(st, k, const(0))
            return
        if m not in ("next", "get", "index"): return
        extra = []
        for st, v in outs:
            x = v
            if v[0] == "adt" and v[1] == OPTION:
                if v[2] == 0: continue
                x = v[3][0]
            if x[0] == "tup" and len(x[1]) == 2: x = x[1][1]
            x = self.res(st, x)
            k = self.elem(x, self.E)
            if k is not None and eqn(eng, st, k, self.g(st, "ek")): self.event(eng, st, x, k)
            k = self.elem(x, self.P)
            if k is not None and eqn(eng, st, k, self.g(st, "opk")):
                self.s(st, "opk", num(L.shift(aff(k), 1)))
                self.s(st, "prod", self.g(st, "after"))
                b = st.copy()
                for s_, c in ((st, True), (b, False)):
                    s_.vars[x[1]] = self.COPY if c else 1 - self.COPY
                    if c:
                        r0, r1 = self.piece(x)
                        ln = L.add(aff(r1), aff(r0), -1)
                        eng.addfact(s_, ln)
                    else: ln = eng.seqlen(eng.fld(eng.fld(x, 0, "0", "Insert", OP), 0, "data", "", "fall_text::text_buf::TextBuf"))
                    self.s(s_, "after", num(L.add(aff(self.g(s_, "prod")), ln)))
                extra.append((b, v))
        outs.extend(extra)

    def on_assert(self, eng, st, kind, cond, fn, span):
        if kind != "bounds" or fn.crate == "models" or cond[0] != "c" or cond[1] != "ge": return
        for base, ghost in ((self.E, "ek"), (self.P, "opk")):
            n = eng.seqlen(base)
            i = L.shift(L.add(n, cond[2], -1), -1)
            if {x for x, _ in n[0]} <= {x for x, _ in cond[2][0]} and eqn(eng, st, num(i), self.g(st, ghost)) and base == self.E:
                self.event(eng, st, ("s", eng.T.intern(("elem", base, num(i)))), num(i))

    def piece(self, op):
        e = self.eng
        r = e.fld(op, 0, "0", "Copy", OP)
        return (e.fld(r, fidx(self.F, RANGE, "start"), "start", "", RANGE), e.fld(r, fidx(self.F, RANGE, "end"), "end", "", RANGE))

    def event(self, eng, st, x, k):
        """event k is at hand"""
        if not eng.quiet: self.n += 1
        self.ok("an event is dealt with before the next", self.settled(eng, st), "pass", "does not pass exactly the raw tokens of an event, and the whitespace after it, before the next event")
        self.s(st, "ek", num(L.shift(aff(k), 1)))
        self.error(eng, st)
        inb = self.inbody(eng, st, k)
        self.s(st, "ws", mon(2))
        self.s(st, "in", mon(2 if inb else 1))
        if not inb:
            for g in ("cb", "cs", "nt", "ck", "cn", "sk"): self.s(st, g, const(0))
            self.s(st, "any", mon(0)); self.s(st, "err", mon(0))

    def on_assume(self, eng, st, c, val):
        if ("G", "at") in st.mem: self.error(eng, st, True)
        if ("G", "ws") in st.mem and self.g(st, "ws")[2] == 0 and self.settled(eng, st): self.s(st, "ws", mon(2))

    def inbody(self, eng, st, k):
        if self.g(st, "any")[2] == 0: return False
        ce = ("s", eng.T.intern(("elem", self.E, num(L.shift(aff(self.g(st, "cb")), -1)))))
        return eng.holds(st, L.shift(L.add(L.add(aff(self.g(st, "cb")), aff(self.nev(st))), aff(k), -1), -1))

    def nev(self, st): return self.g(st, "cn")

    def error(self, eng, st, wait=False):
        """settle whether the start event at hand opens an error node"""
        if self.g(st, "at")[2] != 1: return
        k = num(L.shift(aff(self.g(st, "ek")), -1))
        ty = self.efld(("s", eng.T.intern(("elem", self.E, self.g(st, "sk")))), "Start", "ty")
        d = eng.decide(st, eng.cmp("Eq", ty, const(0)))
        if d is None and wait: return
        if d is not False: self.s(st, "err", mon(1))
        self.s(st, "at", mon(0))

    def on_variant(self, eng, st, i, idx, path):
        if path != EVENT: return
        k = self.elem(("s", i), self.E)
        if k is None or not eqn(eng, st, num(L.shift(aff(k), 1)), self.g(st, "ek")): return
        x = ("s", i)
        inb = self.g(st, "in")[2] == 2
        if self.g(st, "in")[2] == 0: return
        if not isinstance(idx, int) and not {self.vs["Token"], self.vs["Start" if inb else "Cached"]} <= set(idx): return
        self.s(st, "in", mon(0))
        if idx == self.vs["Token"]:
            n = self.efld(x, "Token", "n_raw_tokens")
            self.s(st, "te", num(L.add(aff(self.g(st, "tk")), aff(n))))
            self.s(st, "ws", mon(0))
            if inb: self.s(st, "nt", num(L.add(aff(self.g(st, "nt")), aff(n))))
        elif idx == self.vs["Start"] and inb:
            self.s(st, "at", mon(1)); self.s(st, "sk", k)
        elif idx == self.vs["Cached"] and not inb:
            self.s(st, "cb", num(L.shift(aff(k), 1)))
            self.s(st, "ck", self.efld(x, "Cached", "key")); self.s(st, "cn", self.efld(x, "Cached", "n_events"))
            self.s(st, "cs", self.g(st, "txt")); self.s(st, "nt", const(0))
            self.s(st, "err", mon(0)); self.s(st, "any", mon(1))

    # ---- offering
    def insert(self, eng, st, args):
        if not eng.quiet: self.inserts += 1
        self.error(eng, st)
        key, val = self.res(st, args[1]), self.res(st, args[2])
        kp, kr = eng.fld(key, 0, "0"), eng.fld(key, 1, "1")
        v = [eng.fld(val, i, str(i)) for i in range(3)]
        cb, cn, cs, end = (self.g(st, k) for k in ("cb", "cn", "cs", "txt"))
        ge = lambda a, b: eng.holds(st, L.add(aff(a), aff(b), -1))
        self.ok("a cached subtree is offered", self.g(st, "any")[2] == 1, "which", "offers something that is not a cached subtree")
        self.ok("all of the subtree has been seen", eqn(eng, st, self.g(st, "ek"), num(L.add(aff(cb), aff(cn)))) and self.settled(eng, st), "whole", "offers a subtree before all of its events and tokens have been passed")
        self.ok("a subtree with an error is not offered", self.g(st, "err")[2] == 0, "error", "offers a subtree that may contain an error")
        op = ("s", eng.T.intern(("elem", self.P, num(L.shift(aff(self.g(st, "opk")), -1)))))
        if st.vars.get(op[1]) != self.COPY:
            self.ok("a subtree is offered inside a copied piece", False, "piece", "offers a subtree that does not lie in a copied piece of the edit")
        else:
            r0, r1 = self.piece(op)
            self.ok("the subtree starts inside the copied piece", ge(cs, r0), "start", "offers a subtree that starts before the copied piece")
            self.ok("the subtree ends inside the copied piece", ge(r1, end), "end", "offers a subtree that ends after the copied piece")
            self.ok("the subtree is offered where its text is after the edit", eqn(eng, st, kp, num(L.add(L.add(aff(self.g(st, "prod")), aff(cs)), aff(r0), -1))), "at", "offers a subtree at another place than the one its text has after the edit")
        self.ok("the subtree is offered for its own rule", eqn(eng, st, kr, self.g(st, "ck")), "rule", "offers a subtree for another rule than the one it was parsed by")
        self.ok("the events of the subtree are named", eqn(eng, st, v[0], cb) and eqn(eng, st, v[1], cn), "events", "names other events than those of the subtree")
        self.ok("the raw tokens of the subtree are counted", eqn(eng, st, v[2], self.g(st, "nt")), "tokens", "does not count exactly the raw tokens of the subtree")
        return [(st, eng.fresh("old"))]


def analyse(F, M, rep, ctx):
    ck = Salv(F, rep)
    eng = Eng(F, M, ck); ck.eng = eng
    st = St()
    ck.E, ck.T, ck.W, ck.D = eng.fresh("events"), eng.fresh("tokens"), eng.fresh("is_ws"), eng.fresh("edit")
    ck.m = num(eng.seqlen(ck.T))
    ck.P = eng.fld(ck.D, fidx(F, "fall_text::text_edit::TextEdit", "ops"), "ops", "", "fall_text::text_edit::TextEdit")
    refs = []
    for n, v in (("ev&", ck.E), ("tok&", ck.T), ("ws&", ck.W), ("edit&", ck.D)):
        c = eng.fresh(n); st.mem[("D", c[1])] = v; refs.append(c)
    for k in NUMS + ("sk", "ck", "cn"): st.mem[("G", k)] = const(0)
    for k in ("ws", "in", "at", "err", "any"): st.mem[("G", k)] = mon(0)
    outs = eng.run(F.fn("fall_parse::syn_engine::salvage_segments"), refs, st)
    rep.ok("C08", "subtrees are salvaged", bool(outs) and ck.inserts > 0 and ck.n > 0, "salvage:none", "salvage_segments never offers a subtree")
    ctx.account(eng)
