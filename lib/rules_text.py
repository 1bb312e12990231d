"""C14/C15: range algebra, slicing, text edits - each operation interpreted with symbolic operands
and compared, outcome by outcome, with its meaning on half-open intervals / edit pieces."""
from absint import *
from facts import CheckError
import linear as L

T = "fall_text::"
UNIT_T = T + "text_unit::TextUnit"
RANGE = T + "text_range::TextRange"
TEXT = T + "text::Text"
BUF = T + "text_buf::TextBuf"
OP = T + "text_edit::TextEditOp"
EDIT = T + "text_edit::TextEdit"
BUILDER = T + "text_edit::TextEditBuilder"
ORDERING_ = "core::cmp::Ordering"


def fidx(F, adt, name, v=0):
    for i, f in enumerate(F.adt(adt)["variants"][v]["fields"]):
        if f["name"] == name: return i
    raise CheckError("anchor missing: field %s.%s" % (adt, name))


def vidx(F, adt, name):
    for i, v in enumerate(F.adt(adt)["variants"]):
        if v["name"] == name: return i
    raise CheckError("anchor missing: %s::%s" % (adt, name))


class Rec(Checker):
    def __init__(self): self.asserts, self.panics = {}, []

    def on_assert(self, eng, st, kind, cond, fn, span):
        if eng.quiet: return
        d = eng.decide(st, cond)
        k = (fn.path, kind, eng.show(cond, 5))
        self.asserts[k] = self.asserts.get(k, True) and d is True

    def on_panic(self, eng, st, name, fn, span):
        if not eng.quiet: self.panics.append((st, fn.path, name))


class Bench:
    """one symbolic run of one function"""
    def __init__(self, F, M, ck=None):
        self.F, self.M = F, M
        self.ck = ck or Rec()
        self.eng = Eng(F, M, self.ck)
        self.st = St()

    def unit(self, label): return self.eng.fresh(label)

    def mkrange(self, label):
        s, e = self.eng.fresh(label + ".start"), self.eng.fresh(label + ".end")
        self.eng.addfact(self.st, L.add(aff(e), aff(s), -1))
        si, ei = fidx(self.F, RANGE, "start"), fidx(self.F, RANGE, "end")
        v = [None, None]; v[si], v[ei] = s, e
        return ("adt", RANGE, 0, tuple(v))

    def rng(self, v):
        e = self.eng
        return (e.fld(v, fidx(self.F, RANGE, "start"), "start", "", RANGE), e.fld(v, fidx(self.F, RANGE, "end"), "end", "", RANGE))

    def mktext(self, label):
        o = self.eng.fresh(label + ".owned")
        v = [None, None]
        v[fidx(self.F, TEXT, "owned")], v[fidx(self.F, TEXT, "range")] = o, self.mkrange(label)
        return ("adt", TEXT, 0, tuple(v))

    def text(self, v):
        e = self.eng
        return e.fld(v, fidx(self.F, TEXT, "owned"), "owned", "", TEXT), self.rng(e.fld(v, fidx(self.F, TEXT, "range"), "range", "", TEXT))

    def cell(self, v, label="self"):
        x = self.eng.fresh(label)
        self.st.mem[("D", x[1])] = v
        return x

    def args(self, fn, vals):
        """wrap values for reference parameters"""
        out = []
        for (ty, n), v in zip(fn.locals[1:fn.argc + 1], vals):
            out.append(self.cell(v, n or "a") if ty["k"] == "ref" and v[0] != "s" else v)
        if fn.argc != len(vals): raise CheckError("anchor missing: %s takes %d parameters" % (fn.path, fn.argc))
        return out

    def run(self, fn, vals):
        self.argv = self.args(fn, vals)
        self.outs = self.eng.run(fn, self.argv, self.st)
        return self.outs

    # comparison with an oracle
    def eq(self, st, a, b):
        d = L.add(aff(a), aff(b), -1)
        return self.eng.holds(st, d) and self.eng.holds(st, L.neg(d))

    def forks(self, st, e):
        """[(state, truth)] of an oracle expression"""
        k = e[0]
        if k == "le":      # a <= b
            return self.eng.fork(st.copy(), self.eng.cmp("Le", e[1], e[2]))
        if k == "lt":
            return self.eng.fork(st.copy(), self.eng.cmp("Lt", e[1], e[2]))
        if k == "not": return [(s, not b) for s, b in self.forks(st, e[1])]
        if k in ("and", "or"):
            acc = [(st, k == "and")]
            for x in e[1:]:
                nxt = []
                for s, b in acc:
                    if b != (k == "and"): nxt.append((s, b))
                    else: nxt.extend(self.forks(s, x))
                acc = nxt
            return acc
        raise CheckError("oracle")

    def truth(self, expr):
        """does the boolean result agree with the oracle on every outcome?"""
        good = bool(self.outs)
        for s, v in self.outs:
            if v[0] not in ("b", "c", "s"): return False
            for s2, b in self.eng.fork(s.copy(), v):
                if any(o != b for _, o in self.forks(s2, expr)): good = False
        return good

    def sure(self, st, expr): return all(b for _, b in self.forks(st, expr))


def eqx(a, b): return ("and", ("le", a, b), ("le", b, a))


def method(F, path, pred=None):
    c = [f for p, f in F.fns.items() if (p == path or pred and pred(p)) and f.kind == "fn"]
    if len(c) != 1: raise CheckError("anchor missing: %s" % path)
    return c[0]


def implfn(F, ty, trait, meth, extra=""):
    """the function of `impl trait for ty`"""
    for i in F.impls:
        if i["trait"] and i["trait"].split("::")[-1].split("<")[0] == trait.split("<")[0] and strip_ty(i["self"]) == ty:
            for it in i["items"]:
                if it.split("::")[-1] == meth:
                    fs = [F.fns[it]] + F.dups.get(it, []) if it in F.fns else []
                    for f in fs:
                        if extra in " ".join(t["s"] for t, _ in f.locals[1:f.argc + 1]): return f
    raise CheckError("anchor missing: impl %s for %s" % (trait, ty))


def ranges_in(v, out):
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == "adt" and v[1] == RANGE: out.append(v)
        for x in v: ranges_in(x, out)
    return out


def algebra(F, M, rep, ctx):
    R = RANGE + "::"
    ok = lambda what, c, key, msg: rep.ok("C14", what, c, "range:" + key, "TextRange::" + msg)

    def check(name, mk, test, fn=None):
        b = Bench(F, M)
        f = fn or F.fn(R + name)
        vals = mk(b)
        b.run(f, vals)
        test(b, vals)
        ctx.account(b.eng)

    def is_range(b, s, v, lo, hi): 
        x, y = b.rng(v)
        return b.eq(s, x, lo) and b.eq(s, y, hi)
    plus = lambda a, c: num(L.add(aff(a), aff(c)))
    minus = lambda a, c: num(L.add(aff(a), aff(c), -1))

    def t(b, v):
        ok("from_to makes the range", bool(b.outs) and all(is_range(b, s, r, v[0], v[1]) for s, r in b.outs), "from_to", "from_to does not make the range it was asked for")
        ok("from_to refuses inverted ranges", all(b.sure(s, ("le", v[0], v[1])) for s, r in b.outs), "from_to-inverted", "from_to accepts a start after the end")
        ok("from_to refuses nothing else", all(b.sure(s, ("lt", v[1], v[0])) for s, _, _ in b.ck.panics), "from_to-panic", "from_to refuses a valid range")
    check("from_to", lambda b: [b.unit("from"), b.unit("to")], t)

    def t(b, v): ok("from_len makes the range", bool(b.outs) and all(is_range(b, s, r, v[0], plus(v[0], v[1])) for s, r in b.outs), "from_len", "from_len does not make the range of that length")
    check("from_len", lambda b: [b.unit("from"), b.unit("len")], t)
    def t(b, v): ok("empty is empty", bool(b.outs) and all(is_range(b, s, r, const(0), const(0)) for s, r in b.outs), "empty", "empty is not [0; 0)")
    check("empty", lambda b: [], t)
    for name in ("start", "end", "len"):
        def t(b, v):
            s0, e0 = b.rng(v[0])
            want = {"start": s0, "end": e0, "len": minus(e0, s0)}[name]
            ok("%s" % name, bool(b.outs) and not b.ck.panics and all(b.eq(s, r, want) for s, r in b.outs) and all(b.ck.asserts.values()), name, "%s is not that of the interval" % name)
        check(name, lambda b: [b.mkrange("r")], t)

    def pred(name, mk, expr, msg):
        def t(b, v): ok(name, not b.ck.panics and b.truth(expr(b, v)), name, "%s %s" % (name, msg))
        check(name, mk, t)
    one = lambda b: [b.mkrange("r")]
    two = lambda b: [b.mkrange("r"), b.mkrange("o")]
    rg = lambda b, v: b.rng(v[0]) + b.rng(v[1])
    pred("is_empty", one, lambda b, v: ("le", b.rng(v[0])[1], b.rng(v[0])[0]), "is not emptiness of the interval")
    def sub(b, v): a, c, x, y = rg(b, v); return ("and", ("le", x, a), ("le", c, y))
    pred("is_subrange_of", two, sub, "is not inclusion of the intervals")
    def dis(b, v): a, c, x, y = rg(b, v); return ("or", ("le", c, x), ("le", y, a))
    pred("disjoint", two, dis, "is not disjointness of the intervals")
    pred("intersects", two, lambda b, v: ("not", dis(b, v)), "is not intersection of the intervals")
    pred("contains_offset_nonstrict", lambda b: [b.mkrange("r"), b.unit("off")], lambda b, v: ("and", ("le", b.rng(v[0])[0], v[1]), ("le", v[1], b.rng(v[0])[1])), "is not membership in the closed interval")

    def t(b, v):
        a, c, x, y = rg(b, v)
        ok("glue joins", bool(b.outs) and all(is_range(b, s, r, a, y) for s, r in b.outs), "glue", "glue does not span both ranges")
        ok("glue refuses a gap", all(b.eq(s, c, x) for s, r in b.outs), "glue-gap", "glue joins ranges that do not touch")
        ok("glue refuses nothing else", all(b.sure(s, ("not", eqx(c, x))) for s, _, _ in b.ck.panics), "glue-panic", "glue refuses ranges that touch")
    check("glue", two, t)
    def t(b, v):
        a, c = b.rng(v[0])
        ok("shift_right shifts", bool(b.outs) and not b.ck.panics and all(is_range(b, s, r, plus(a, v[1]), plus(c, v[1])) for s, r in b.outs), "shift", "shift_right does not move both ends by the offset")
    check("shift_right", lambda b: [b.mkrange("r"), b.unit("off")], t)

    def t(b, v):
        a, c, x, y = rg(b, v)
        same = ("and", eqx(a, x), eqx(c, y))
        want = {"Equal": same, "Less": ("and", ("not", same), ("le", c, x)), "Greater": ("and", ("not", same), ("not", ("le", c, x)), ("le", y, a)),
                None: ("and", ("not", same), ("not", ("le", c, x)), ("not", ("le", y, a)))}
        names = VARIANTS.get(ORDERING_) or ["Less", "Equal", "Greater"]
        good = bool(b.outs)
        for s, r in b.outs:
            if r[0] != "adt": good = False; continue
            if r[2] == 0: good = good and b.sure(s, want[None]); continue
            o = r[3][0]
            if o[0] != "adt": good = False; continue
            good = good and b.sure(s, want[names[o[2]]])
        ok("partial_cmp orders disjoint ranges by position", good, "partial_cmp", "partial_cmp does not order exactly the disjoint ranges by position (and equal ranges as equal)")
    check("partial_cmp", two, t, implfn(F, RANGE, "PartialOrd", "partial_cmp"))

    # nothing else makes a range
    n = 0
    for f in F.fns.values():
        if not makes_range(f): continue
        n += 1
        if f.path == R + "from_to": continue
        b = Bench(F, M)
        vals = []
        for ty, nm in f.locals[1:f.argc + 1]:
            s = strip_ty(ty["s"])
            v = b.mkrange(nm or "r") if s == RANGE else b.eng.fresh(nm or "a")
            vals.append(b.cell(v) if ty["k"] == "ref" and v[0] == "adt" else v)
        good = True
        for s, r in b.eng.run(f, vals, b.st):
            for x in ranges_in((r, tuple(s.mem.get(("D", a[1])) for a in vals if a[0] == "s" and ("D", a[1]) in s.mem)), []):
                lo, hi = b.rng(x)
                if not b.eng.holds(s, L.add(aff(hi), aff(lo), -1)): good = False
        ok("%s makes no inverted range" % f.path.split("::")[-1], good, "make:" + f.path, "a range is made without start <= end in %s" % f.path)
        ctx.account(b.eng)
    ok("range constructors found", n >= 1, "make:gone", "no constructor of TextRange is found")
    ctx.count("range_constructors", n)
    for f in F.adt(RANGE)["variants"][0]["fields"]:
        ok("field %s is private" % f["name"], f["vis"] != "Public", "private:" + f["name"], "field %s is public: any code can make an inverted range" % f["name"])


def makes_range(f):
    """constructs a TextRange from parts, or writes one of its fields"""
    for blk in f.blocks:
        for s in blk["s"]:
            if s[0] != "=": continue
            pl, rv = s[1], s[2]
            if rv[0] == "adt" and rv[1] == RANGE: return True
            if rv[0] in ("ref", "rawptr") and "mut" in str(rv[1]).lower() and fieldwrite(rv[2]): return True
            if fieldwrite(pl): return True
    return False


def fieldwrite(pl, adt=None):
    if not (isinstance(pl, dict) and pl.get("p")): return False
    e = pl["p"][-1]
    return isinstance(e, (list, tuple)) and e[0] == "field" and e[-1] == (adt or RANGE)


def isstr(ty):
    s = strip_ty(ty["s"])
    return s in ("str", "alloc::string::String")


class Txt(Rec):
    """interprets string slicing as the pair of its ends"""
    def __init__(self, bench):
        Rec.__init__(self)
        self.b = bench

    def on_panic(self, eng, st, name, fn, span):
        if not eng.quiet: self.panics.append((st, fn.path, name))

    def strval(self, eng, st, v):
        n = 0
        while v[0] in ("ref", "rv") and n < 6:
            v = eng.load(st, v); n += 1
        if v[0] == "s" and ("D", v[1]) in st.mem: return self.strval(eng, st, st.mem[("D", v[1])])
        return v

    def intercept(self, eng, st, name, args, call):
        m, tr = call["method"], call["trait"] or ""
        lib = name.split("::")[0].lstrip("<") in ("core", "alloc", "std")
        if not lib or not call["aty"]: return None
        t0 = call["aty"][0]
        if m in ("deref", "as_str", "as_ref", "borrow") and isstr(t0): return [(st, self.strval(eng, st, args[0]))]
        if m == "len" and isstr(t0): return [(st, eng.app("strlen", self.strval(eng, st, args[0])))]
        if m == "is_empty" and isstr(t0): return [(st, eng.cmp("Eq", eng.app("strlen", self.strval(eng, st, args[0])), const(0)))]
        if m in ("index", "get_unchecked") and isstr(t0) and args[1][0] == "adt" and args[1][1].startswith("core::ops::range::"):
            base, r = self.strval(eng, st, args[0]), args[1]
            k = r[1].split("::")[-1]
            n = eng.app("strlen", base)
            lo, hi = {"Range": lambda: (r[3][0], r[3][1]), "RangeFrom": lambda: (r[3][0], n), "RangeTo": lambda: (const(0), r[3][0]), "RangeFull": lambda: (const(0), n)}.get(k, lambda: (None, None))()
            if lo is None: return None
            return [(st, eng.app("substr", base, lo, hi))]
        return None


def tbench(F, M):
    b = Bench(F, M)
    b.ck = b.eng.ck = Txt(b)
    return b


def units(F, M, rep, ctx):
    """arithmetic on offsets"""
    for i in F.impls:
        tr = (i["trait"] or "").split("<")[0]
        op = {"core::ops::arith::Add": 1, "core::ops::arith::AddAssign": 1, "core::ops::arith::Sub": -1, "core::ops::arith::SubAssign": -1}.get(tr)
        if op is None or strip_ty(i["self"]) != UNIT_T: continue
        for it in i["items"]:
            if it not in F.fns: continue
            for f in [F.fns[it]] + F.dups.get(it, []):
                if f.kind != "fn" or f.argc != 2: continue
                ass = tr.endswith("Assign")
                b2 = Bench(F, M)
                x, y = b2.eng.fresh("x"), b2.eng.fresh("y")
                c = b2.cell(x) if ass else x
                outs = b2.eng.run(f, [c, y], b2.st)
                want = num(L.add(aff(x), aff(y), op))
                rep.ok("C14", "offset arithmetic", bool(outs) and not b2.ck.panics and all(b2.eq(s, s.mem[("D", c[1])] if ass else v, want) for s, v in outs),
                       "unit:" + tr + strip_ty(f.locals[2][0]["s"]), "%s of offsets is not %s" % (tr.split("::")[-1], "the sum" if op > 0 else "the difference"))
                ctx.account(b2.eng)


def slicing(F, M, rep, ctx):
    ok = lambda what, c, key, msg: rep.ok("C14", what, c, "text:" + key, msg)
    idx = []
    for i in F.impls:
        if i["trait"] and i["trait"].split("<")[0] == "core::ops::index::Index":
            for it in i["items"]:
                if it.split("::")[-1] == "index":
                    for f in [F.fns[it]] + F.dups.get(it, []) if it in F.fns else []:
                        if f.argc == 2 and strip_ty(f.locals[2][0]["s"]) == RANGE: idx.append((i["self"], f))
    idx = list({f.uid if hasattr(f, "uid") else id(f): (s, f) for s, f in idx}.values())
    ok("strings are indexed by ranges", len(idx) >= 2, "index:gone", "no Index<TextRange> for str and String")
    for ty, f in idx:
        b = tbench(F, M)
        r = b.mkrange("r")
        b.run(f, [b.eng.fresh("s"), r])
        good = bool(b.outs) and not b.ck.panics
        for s, v in b.outs:
            d = b.eng.struct(v) if v[0] == "s" else None
            lo, hi = b.rng(r)
            good = good and substr_is(b, s, v, b.argv[0], lo, hi)
        ok("indexing %s by a range" % ty, good, "index:" + ty, "%s indexed by a range is not the part from its start to its end" % ty)
        ctx.account(b.eng)

    # Text::slice for both kinds of slice
    sl = [f for p, f in F.fns.items() if f.kind == "fn" and p == TEXT + "::slice"]
    if len(sl) != 1: raise CheckError("anchor missing: Text::slice")
    def run_slice(kind):
        b = tbench(F, M)
        t = b.mktext("t")
        own, (lo, hi) = b.text(t)
        n = num(L.add(aff(hi), aff(lo), -1))
        if kind == "range":
            x = b.mkrange("r")
            a, c = b.rng(x)
        else:
            a = b.eng.fresh("from")
            mk = F.fn(T + "text_slice::TextSuffix::from")
            o = b.eng.run(mk, [a], b.st)
            if len(o) != 1: raise CheckError("TextSuffix::from")
            b.st, x = o[0]
            c = n
        b.run(sl[0], [t, x])
        good = bool(b.outs)
        for s, v in b.outs:
            o2, (x1, x2) = b.text(v)
            good = good and o2 == own and b.eq(s, x1, plus(lo, a)) and b.eq(s, x2, plus(lo, c))
        ok("slice by %s is the requested part" % kind, good, "slice-" + kind, "Text::slice by a %s does not yield exactly the requested part of the text" % kind)
        ok("slice by %s stays inside" % kind, all(b.sure(s, ("le", c, n)) and b.sure(s, ("le", a, c)) for s, _ in b.outs), "slice-out-" + kind, "Text::slice by a %s accepts a part outside the text" % kind)
        valid = ("and", ("le", a, c), ("le", c, n))
        ok("slice by %s refuses nothing inside" % kind, all(b.sure(s, ("not", valid)) for s, _, _ in b.ck.panics) and all(b.ck.asserts.values()), "slice-panic-" + kind, "Text::slice by a %s refuses a part that lies inside the text" % kind)
        ctx.account(b.eng)
    run_slice("range")
    run_slice("suffix")

    for name, want in (("len", lambda b, lo, hi: num(L.add(aff(hi), aff(lo), -1))),):
        b = tbench(F, M)
        t = b.mktext("t")
        own, (lo, hi) = b.text(t)
        b.run(F.fn(TEXT + "::" + name), [t])
        ok("length of a text", bool(b.outs) and all(b.eq(s, v, want(b, lo, hi)) for s, v in b.outs), "len", "Text::len is not the length of its range")
        ctx.account(b.eng)
    b = tbench(F, M)
    t = b.mktext("t")
    own, (lo, hi) = b.text(t)
    b.run(F.fn(TEXT + "::is_empty"), [t])
    ok("emptiness of a text", b.truth(("le", hi, lo)), "is_empty", "Text::is_empty is not emptiness of its range")
    ctx.account(b.eng)

    # a whole buffer as text
    b = tbench(F, M)
    d = b.eng.fresh("data")
    buf = ("adt", BUF, 0, (d,))
    b.run(F.fn(BUF + "::as_text"), [buf])
    good = bool(b.outs) and not b.ck.panics
    for s, v in b.outs:
        o, (lo, hi) = b.text(v)
        good = good and b.ck.strval(b.eng, s, o) == d and b.eq(s, lo, const(0)) and b.eq(s, hi, b.eng.app("strlen", d))
    ok("as_text is the whole buffer", good, "as_text", "TextBuf::as_text is not the whole buffer")
    ctx.account(b.eng)

    # what is read of a text is its own part of the buffer
    readers = 0
    for p, f in sorted(F.fns.items()):
        if f.crate != "fall_text" or f.kind != "fn" or not f.argc: continue
        for f in [f] + F.dups.get(p, []):
            if not reads_text(f): continue
            if f.path in (TEXT + "::slice", TEXT + "::len", TEXT + "::is_empty"): continue
            readers += 1
            b = tbench(F, M)
            vals, texts = [], []
            for ty, nm in f.locals[1:f.argc + 1]:
                s = ty["s"]
                while s.startswith("&"): s = s[1:].split(" ", 1)[1] if s[1:2] == "'" else s[1:]
                if strip_ty(s) == TEXT:
                    t = b.mktext(nm or "t")
                    texts.append(t)
                    c, k = t, 0
                    x = ty
                    while x["k"] == "ref":
                        c = b.cell(c); x = x["to"]
                    vals.append(c)
                else: vals.append(b.eng.fresh(nm or "a"))
            b.subs = []
            orig = b.ck.intercept
            def icpt(eng, st, name, args, call):
                r = orig(eng, st, name, args, call)
                if r and call["method"] == "index" and isstr(call["aty"][0]): b.subs.append((r[0][0], r[0][1], b.ck.strval(eng, st, args[0])))
                return r
            b.ck.intercept = icpt
            b.eng.run(f, vals, b.st)
            good = True
            roots = [b.text(t) for t in texts]
            for s, v, base in b.subs:
                own = [(o, lh) for o, lh in roots if b.ck.strval(b.eng, s, o) == base]
                if own and not any(substr_is(b, s, v, o, lo, hi) for o, (lo, hi) in own): good = False
            ok("%s reads its own part" % f.path.split("::", 1)[1], good and bool(b.subs), "reads:" + f.path, "%s reads a part of the buffer that is not the text" % f.path)
            ctx.account(b.eng)
    ctx.count("text_readers", readers)
    ok("readers of texts found", readers >= 1, "reads:gone", "nothing reads a text")
    for f in F.adt(TEXT)["variants"][0]["fields"]:
        ok("field %s of Text is not public" % f["name"], f["vis"] != "Public", "private:" + f["name"], "field Text.%s is public" % f["name"])


def substr_is(b, s, v, base, lo, hi):
    d = b.eng.struct(v) if v[0] == "s" else None
    if not d or d[0] != "app" or d[1] != "substr": return False
    o, x, y = d[2:]
    return b.ck.strval(b.eng, s, o) == b.ck.strval(b.eng, s, base) and b.eq(s, x, lo) and b.eq(s, y, hi)


def reads_text(f):
    """mentions the buffer behind a Text"""
    for blk in f.blocks:
        for s in blk["s"]:
            if s[0] == "=" and ("'owned'" in str(s[2])) and TEXT in str(s[2]) and s[2][0] != "adt": return True
    return False


plus = lambda a, c: num(L.add(aff(a), aff(c)))


def analyse(F, M, rep, ctx):
    algebra(F, M, rep, ctx)
    units(F, M, rep, ctx)
    slicing(F, M, rep, ctx)
    edits(F, M, rep, ctx)


# ------------------------------------------------------------------ C15: edits

COW = "alloc::borrow::Cow"


class Cat(Txt):
    """strings that are built are sequences of the pieces appended to them"""
    def __init__(self, bench):
        Txt.__init__(self, bench)
        self.appends = []

    def strval(self, eng, st, v):
        v = Txt.strval(self, eng, st, v)
        if v[0] == "adt" and v[1] == COW: return self.strval(eng, st, v[3][0])
        if v[0] == "adt" and v[1] == BUF: return self.strval(eng, st, v[3][0])
        return v

    def whole(self, eng, st, v):
        """a whole string seen as a part of it"""
        v = self.strval(eng, st, v)
        d = eng.struct(v) if v[0] == "s" else None
        if d and d[0] == "app" and d[1] == "substr":
            return self.strval(eng, st, d[2]), d[3], d[4]
        return v, const(0), eng.app("strlen", v)

    def intercept(self, eng, st, name, args, call):
        m = call["method"]
        lib = name.split("::")[0].lstrip("<") in ("core", "alloc", "std")
        t0 = call["aty"][0]["s"] if call["aty"] else ""
        if lib and m in ("new", "with_capacity") and "alloc::string::String" in call["dty"]["s"]: return [(st, ("seq", ()))]
        if lib and m in ("add_assign", "push_str", "write_str") and "alloc::string::String" in t0:
            r = eng.deref(args[0])
            self.append(eng, st, r, args[1], call)
            return [(st, UNIT)] if m != "write_str" else None
        if lib and m in ("deref", "as_ref", "borrow", "into_owned", "to_string", "to_owned", "into") and ("Cow" in t0):
            return [(st, self.strval(eng, st, args[0]))]
        if lib and m in ("to_owned", "to_string", "clone", "into", "from") and ("str" in t0 or "String" in t0) and args and not (m == "into" and "TextBuf" in call["dty"]["s"]):
            return [(st, self.strval(eng, st, args[0]))]
        return Txt.intercept(self, eng, st, name, args, call)

    def append(self, eng, st, r, piece, call):
        v = eng.load(st, r)
        if not eng.quiet: self.appends.append((st.copy(), r, self.whole(eng, st, piece)))
        if ("G", "k") in st.mem: self.step(eng, st, piece)
        eng.write(st, r, ("seq", eng.seq(v) + (("it", piece),)), call["fn"], call["span"])


def cbench(F, M):
    b = Bench(F, M)
    b.ck = b.eng.ck = Cat(b)
    return b


def edits(F, M, rep, ctx):
    ok = lambda what, c, key, msg: rep.ok("C15", what, c, "edit:" + key, msg)
    Bd = BUILDER + "::"
    COPY, INS = vidx(F, OP, "Copy"), vidx(F, OP, "Insert")
    fields = F.adt(BUILDER)["variants"][0]["fields"]

    # roles of the builder's fields are read off its initial state
    b = tbench(F, M)
    t = b.mktext("t")
    _, (lo, hi) = b.text(t)
    n = num(L.add(aff(hi), aff(lo), -1))
    outs = b.run(F.fn(Bd + "new"), [t])
    roles = {}
    good = len(outs) >= 1 and not b.ck.panics
    for s, v in outs:
        got = {}
        for i, f in enumerate(fields):
            x = v[3][i] if v[0] == "adt" else ("uninit",)
            if x[0] in ("seq", "arr") : got.setdefault("ops", i) if not b.eng.seq(x) else None
            elif is_num(x) or x[0] == "s":
                if b.eq(s, x, const(0)) and not b.eq(s, n, const(0)): got.setdefault("off", i)
                elif b.eq(s, x, n): got.setdefault("len", i)
        good = good and set(got) == {"ops", "off", "len"} and (not roles or roles == got)
        roles = got
    ok("a new builder has copied nothing", good, "new", "TextEditBuilder::new does not start with no pieces, at offset 0, with the length of the text")
    ctx.account(b.eng)
    if not good: return

    def fresh(b):
        v = [b.eng.fresh(f["name"]) for f in fields]
        return tuple(v), v[roles["ops"]], v[roles["off"]], v[roles["len"]]

    def pieces(b, s, v):
        """normalised pieces appended after the old ones, None if the old ones changed"""
        ch = b.eng.seq(v)
        if not ch or ch[0] != ("ck", b.old[1]): return None
        out = []
        for c in ch[1:]:
            if c[0] != "it" or c[1][0] != "adt" or c[1][1] != OP: return None
            x = c[1]
            if x[2] == COPY:
                lo, hi = b.rng(x[3][0])
                if b.eq(s, lo, hi): continue
                if out and out[-1][0] == "copy" and b.eq(s, out[-1][2], lo): out[-1] = ("copy", out[-1][1], hi)
                else: out.append(("copy", lo, hi))
            else: out.append(("ins", x[3][0]))
        return out

    def buf_of(b, s, v):
        """the piece made of the caller's text"""
        if v[0] == "adt" and v[1] == BUF: v = v[3][0]
        return v

    def check(name, what, key, mk, want, newoff, need, consume=False):
        f = F.fn(Bd + name)
        b = cbench(F, M)
        v, b.old, off, n = fresh(b)
        b.n, b.off = n, off
        vals = mk(b)
        me = ("adt", BUILDER, 0, v)
        cell = me if consume else b.cell(me, "self")
        b.run(f, [cell] + vals)
        good, offs, st_ok = bool(b.outs), True, True
        for s, r in b.outs:
            if consume:
                e = r[3][0] if r[0] == "adt" and r[1] == EDIT else None
                got = pieces(b, s, e) if e else None
            else:
                w = s.mem.get(("D", cell[1]), me)
                if w[0] != "adt": good = False; continue
                got = pieces(b, s, w[3][roles["ops"]])
                offs = offs and b.eq(s, w[3][roles["off"]], newoff(b, vals))
                st_ok = st_ok and b.eq(s, w[3][roles["len"]], n)
            exp = []
            for k in want(b, vals):
                if k[0] == "copy" and b.eq(s, k[1], k[2]): continue
                exp.append(k)
            if got is None or len(got) != len(exp): good = False; continue
            for g, e in zip(got, exp):
                if g[0] != e[0]: good = False
                elif g[0] == "copy": good = good and b.eq(s, g[1], e[1]) and b.eq(s, g[2], e[2])
                else: good = good and is_text(b, s, g[1], e[1])
        ok("%s: pieces" % name, good, key, "TextEditBuilder::%s does not %s" % (name, what))
        if not consume:
            ok("%s: offset" % name, offs, key + "-offset", "TextEditBuilder::%s does not leave the offset behind what it covered" % name)
            ok("%s: text length" % name, st_ok, key + "-len", "TextEditBuilder::%s changes the text length" % name)
        ok("%s refuses to go back" % name, all(b.sure(s, need(b, vals)) for s, _ in b.outs), key + "-back", "TextEditBuilder::%s accepts a position before what is already covered" % name)
        ok("%s refuses nothing else" % name, all(b.sure(s, ("not", need(b, vals))) for s, _, _ in b.ck.panics) and all(b.ck.asserts.values()), key + "-panic", "TextEditBuilder::%s refuses a position that is not covered yet" % name)
        ctx.account(b.eng)

    def is_text(b, s, v, txt):
        v = buf_of(b, s, v)
        if b.ck.strval(b.eng, s, v) == txt: return True
        d = b.eng.struct(v) if v[0] == "s" else None
        return bool(d) and d[0] == "app" and d[1].split("::")[-1].rstrip(">") in ("into", "from", "to_owned", "to_string") and len(d) == 3 and is_text(b, s, d[2], txt)

    st = lambda b, r: b.rng(r)[0]
    en = lambda b, r: b.rng(r)[1]
    check("insert", "copy up to the position and add the text there", "insert", lambda b: [b.unit("at"), b.eng.fresh("text")],
          lambda b, v: [("copy", b.off, v[0]), ("ins", v[1])], lambda b, v: v[0], lambda b, v: ("le", b.off, v[0]))
    check("delete", "copy up to the deleted range and skip it", "delete", lambda b: [b.mkrange("r")],
          lambda b, v: [("copy", b.off, st(b, v[0]))], lambda b, v: en(b, v[0]), lambda b, v: ("le", b.off, st(b, v[0])))
    check("replace", "copy up to the replaced range, add the text and skip the range", "replace", lambda b: [b.mkrange("r"), b.eng.fresh("text")],
          lambda b, v: [("copy", b.off, st(b, v[0])), ("ins", v[1])], lambda b, v: en(b, v[0]), lambda b, v: ("le", b.off, st(b, v[0])))
    check("build", "copy the rest of the text", "build", lambda b: [], lambda b, v: [("copy", b.off, b.n)], None, lambda b, v: ("le", b.off, b.n), consume=True)

    for f in fields:
        ok("field %s of the builder is private" % f["name"], f["vis"] != "Public", "private:" + f["name"], "TextEditBuilder.%s is public" % f["name"])

    # applying
    f = F.fn(EDIT + "::apply")
    b = cbench(F, M)
    ops = b.eng.fresh("ops")
    t = b.mktext("t")
    own, (lo, hi) = b.text(t)
    st0 = b.st
    st0.mem[("G", "k")] = const(0)
    nops = num(b.eng.seqlen(ops))
    res = {"step": True, "n": 0, "why": ""}

    def step(eng, s, piece):
        k = s.mem[("G", "k")]
        s.mem[("G", "k")] = num(L.shift(aff(k), 1))
        if eng.quiet: return
        res["n"] += 1
        base, x, y = b.ck.whole(eng, s, piece)
        if not eng.holds(s, L.shift(L.add(aff(nops), aff(k), -1), -1)): res["step"] = False; return
        op = eng.index(s, ops, k)
        good = False
        for s2, isv in eng.fork_variant(s.copy(), op, COPY, 2):
            if isv:
                r = eng.fld(op, 0, "0", "Copy", OP)
                rl = eng.fld(r, fidx(F, RANGE, "start"), "start", "", RANGE)
                rh = eng.fld(r, fidx(F, RANGE, "end"), "end", "", RANGE)
                good = base == b.ck.strval(eng, s2, own) and b.eq(s2, x, plus(lo, rl)) and b.eq(s2, y, plus(lo, rh))
            else:
                w = eng.fld(op, 0, "0", "Insert", OP)
                d = eng.fld(w, 0, F.adt(BUF)["variants"][0]["fields"][0]["name"], "", BUF)
                good = base in (d, w) and b.eq(s2, x, const(0)) and b.eq(s2, y, eng.app("strlen", base))
            if not good: res["step"] = False
    b.ck.step = step
    outs = b.run(f, [("adt", EDIT, 0, (ops,)), t])
    ok("apply: each piece in turn", res["step"] and res["n"] > 0, "apply-step", "TextEdit::apply does not append, for each piece in turn, the copied part of the text or the inserted text")
    good = bool(outs)
    for s, v in outs:
        d = v[3][0] if v[0] == "adt" and v[1] == BUF else v
        good = good and b.eq(s, s.mem[("G", "k")], nops) and d[0] == "seq" and b.eq(s, num(b.eng.seqlen(d)), nops)
    ok("apply: the result is all the pieces", good, "apply", "TextEdit::apply does not return the concatenation of all pieces")
    ctx.account(b.eng)
