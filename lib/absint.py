"""Path-partitioned abstract interpreter over the MIR facts.

Domain: symbolic terms + linear integer facts + enum-variant facts, exact symbolic sequences
(vectors) with summarised chunks.  Loops are solved by widening: incoming states are grouped by
shape, differing leaves become fresh phi symbols, affine equalities between them are recovered
with Karr's analysis, inequalities with Houdini-style candidate filtering.  Calls into the
workspace are inlined; standard-library combinators are inlined from models/models.rs; calls that
are neither are opaque (pure result keyed by the arguments, mutable arguments havocked)."""
import heapq, re, sys
from fractions import Fraction
from facts import CheckError, canon
import linear as L

sys.setrecursionlimit(20000)

OPTION = "core::option::Option"
RESULT = "core::result::Result"
ORDERING = "core::cmp::Ordering"
UNIT = ("tup", ())
TRUE, FALSE = ("b", True), ("b", False)
NONE = ("adt", OPTION, 0, ())
VARIANTS = {OPTION: ["None", "Some"], RESULT: ["Ok", "Err"], ORDERING: ["Less", "Equal", "Greater"],
            "core::ops::control_flow::ControlFlow": ["Continue", "Break"], "alloc::borrow::Cow": ["Borrowed", "Owned"]}


def some(v):
    return ("adt", OPTION, 1, (v,))


def strip_ty(s):
    """`a::B<'f, T>` -> `a::B` ; references removed"""
    s = s.lstrip("&").strip()
    if s.startswith("mut "):
        s = s[4:]
    i = s.find("<")
    return s[:i] if i > 0 else s


# ------------------------------------------------------------------ terms
class Terms:
    def __init__(self):
        self.structs = []
        self.ids = {}
        self.atoms = []
        self.birth = []
        self.tick = 0

    def intern(self, struct):
        i = self.ids.get(struct)
        if i is None:
            i = len(self.structs)
            self.structs.append(struct)
            self.ids[struct] = i
            if struct[0] in ("#", "phi"):
                self.tick += 1
                self.birth.append(self.tick)
                self.atoms.append(frozenset((i,)))
            else:
                a = frozenset()
                b = 0
                for j in ids_in(struct):
                    a |= self.atoms[j]
                    b = max(b, self.birth[j])
                self.atoms.append(a)
                self.birth.append(b)
        return i

    def fresh(self, label):
        self.tick += 1
        return ("s", self.intern(("#", self.tick, label)))


def ids_in(v):
    out = []
    st = [v]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x:
            continue
        k = x[0]
        if k == "s" or k == "ck" or k == "D":
            out.append(x[1])
        elif k == "i":
            out.extend(i for i, _ in x[1])
        elif k == "c" and len(x) == 4:
            if x[1] == "t":
                out.append(x[2])
            else:
                out.extend(i for i, _ in x[2][0])
        elif k == "T":  # ('T', id)
            out.append(x[1])
        else:
            st.extend(x)
    return out


def aff(v):
    if v[0] == "s":
        return (((v[1], 1),), 0)
    if v[0] == "i":
        return (v[1], v[2])
    return None


def num(a):
    t, c = a
    if c == 0 and len(t) == 1 and t[0][1] == 1:
        return ("s", t[0][0])
    return ("i", t, c)


def const(n):
    return ("i", (), n)


def is_num(v):
    return v[0] == "s" or v[0] == "i"


class St:
    __slots__ = ("mem", "facts", "bools", "vars", "neq", "trace")

    def __init__(self, mem=None, facts=frozenset(), bools=None, vars=None, neq=frozenset(), trace=()):
        self.mem = mem or {}
        self.facts = facts
        self.bools = bools or {}
        self.vars = vars or {}
        self.neq = neq
        self.trace = trace

    def copy(self):
        return St(dict(self.mem), self.facts, dict(self.bools), dict(self.vars), self.neq, self.trace)

    def sig(self):
        return (frozenset(self.mem.items()), self.facts, frozenset(self.bools.items()), frozenset(self.vars.items()), self.neq, self.trace)


class Frame:
    __slots__ = ("fn", "fid", "loops", "rpo", "live")

    def __init__(self, fn, fid, info):
        self.fn, self.fid = fn, fid
        self.loops, self.rpo, self.live = info


# ------------------------------------------------------------------ CFG info
def succs(t):
    k = t["k"]
    if k == "goto":
        return [t["t"]]
    if k == "switch":
        return [x[1] for x in t["v"]] + [t["o"]]
    if k in ("call", "assert", "drop"):
        return [t["t"]] if t["t"] is not None else []
    return []


def place_locals(p, out):
    out.add(p["l"])
    for e in p["p"]:
        if e[0] == "index":
            out.add(e[1])


def op_locals(o, out):
    if o[0] in ("copy", "move"):
        place_locals(o[1], out)


def rv_locals(r, out):
    k = r[0]
    if k == "use":
        op_locals(r[1], out)
    elif k in ("ref", "rawptr"):
        place_locals(r[2], out)
    elif k == "bin":
        op_locals(r[2], out); op_locals(r[3], out)
    elif k in ("un", "cast"):
        op_locals(r[2], out)
    elif k == "discr":
        place_locals(r[1], out)
    elif k == "repeat":
        op_locals(r[1], out)
    elif k == "adt":
        for o in r[4]: op_locals(o, out)
    elif k in ("tuple", "array", "agg"):
        for o in r[1]: op_locals(o, out)
    elif k == "closure":
        for o in r[2]: op_locals(o, out)


def cfg_info(fn):
    n = len(fn.blocks)
    order, seen = [], set()
    stack = [(0, iter(succs(fn.blocks[0]["t"])))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succs(fn.blocks[s]["t"]))))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    rpo = {b: i for i, b in enumerate(order)}
    preds = {b: [] for b in order}
    for b in order:
        for s in succs(fn.blocks[b]["t"]):
            preds[s].append(b)
    # dominators
    idom = {0: 0}
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            ps = [p for p in preds[b] if p in idom]
            x = ps[0]
            for p in ps[1:]:
                y = p
                while x != y:
                    while rpo[x] > rpo[y]: x = idom[x]
                    while rpo[y] > rpo[x]: y = idom[y]
            if idom.get(b) != x:
                idom[b] = x
                changed = True

    def dom(a, b):
        while True:
            if a == b: return True
            if b == 0: return False
            b = idom[b]
    loops = {}
    for b in order:
        for s in succs(fn.blocks[b]["t"]):
            if dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
    # liveness of locals (borrowed locals stay live until StorageDead)
    borrowed = set()
    for b in order:
        for s in fn.blocks[b]["s"]:
            if s[0] == "=" and s[2][0] in ("ref", "rawptr") and not any(e[0] == "deref" for e in s[2][2]["p"]):
                borrowed.add(s[2][2]["l"])
    use, de = {}, {}
    for b in order:
        u, d = set(), set()
        for s in fn.blocks[b]["s"]:
            if s[0] == "=":
                t = set()
                rv_locals(s[2], t)
                if s[1]["p"]: place_locals(s[1], t)
                u |= t - d
                if not s[1]["p"]: d.add(s[1]["l"])
            elif s[0] == "setdiscr":
                if s[1]["l"] not in d: u.add(s[1]["l"])
            elif s[0] in ("dead", "live"):
                d.add(s[1])
        t = fn.blocks[b]["t"]
        tu = set()
        if t["k"] == "switch": op_locals(t["d"], tu)
        elif t["k"] == "call":
            op_locals(t["f"], tu)
            for a in t["a"]: op_locals(a, tu)
            if t["d"]["p"]: place_locals(t["d"], tu)
        elif t["k"] == "assert": op_locals(t["c"], tu)
        elif t["k"] == "drop": pass
        elif t["k"] == "return": tu.add(0)
        u |= tu - d
        if t["k"] == "call" and not t["d"]["p"]: d.add(t["d"]["l"])
        use[b], de[b] = u, d
    live = {b: set() for b in order}
    changed = True
    while changed:
        changed = False
        for b in reversed(order):
            o = set()
            for s in succs(fn.blocks[b]["t"]): o |= live[s]
            x = use[b] | (o - de[b])
            if x != live[b]:
                live[b] = x
                changed = True
    live = {b: live[b] | borrowed for b in order}
    return loops, rpo, live


class TooComplex(CheckError):
    pass


class Unsupported(CheckError):
    pass


class Checker:
    """Rule hooks; a property's checker overrides what it needs."""
    antiunify = False        # keep the structure of terms that differ in an index at loop heads

    def on_assert(self, eng, st, kind, cond, fn, span): pass
    def on_panic(self, eng, st, name, fn, span): pass
    def intercept(self, eng, st, name, args, call): return None
    def on_drop(self, eng, st, v, ty, fn, span): pass
    def summarise(self, eng, extras, phi): return None
    def proj_hook(self, eng, struct): return None
    def on_write(self, eng, st, cell, proj, val, fn, span): pass
    def on_assume(self, eng, st, c, val): pass
    def invariants(self, eng, st): return ()             # candidate facts at loop heads (proved before use)
    def on_push(self, eng, st, ref, item, fn): pass
    def on_result(self, eng, call, args, outs): pass     # results of modelled library calls
    def on_variant(self, eng, st, i, idx, path): pass    # a value's enum variant becomes known on a path


class Eng:
    debug = False
    def __init__(self, F, models, checker=None, max_paths=4000, max_steps=400000):
        self.F = F
        self.M = models
        self.ck = checker or Checker()
        self.T = Terms()
        self.fid = 0
        self.inst = 0
        self.quiet = 0
        self.info = {}
        self.stack = []
        self.tyof = {}
        self.opaque = {}
        self.stuck, self.npanics = {}, 0
        self.unroll = False
        self.max_shapes = 40
        self.visited = set()
        self.steps = 0
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.chunk_attr = {}
        self.chunk_len = {}
        self.chunk_meas = {}
        self.max_depth = 60
        self.recursive = set()
        self.insts = {}
        self._transparent = {}
        self.impl_index = {}
        for src in (F, models):
            for i in src.impls:
                if i["trait"]:
                    self.impl_index.setdefault((i["trait"], strip_ty(i["self"])), []).append(i)
        self.elem_axiom = None
        self.measures = {}  # name -> fn(eng, item) -> affine | None
        self.axioms = []   # functions (eng, ids) -> constraints

    # -------------------------------------------------------------- terms
    def app(self, name, *args):
        return ("s", self.T.intern(("app", name) + args))

    def fresh(self, label):
        return self.T.fresh(label)

    def struct(self, v):
        return self.T.structs[v[1]] if v[0] == "s" else None

    def show(self, v, depth=6):
        if depth == 0: return "…"
        s = lambda x: self.show(x, depth - 1)
        if not isinstance(v, tuple): return str(v)
        k = v[0] if v else None
        if k == "s":
            return self.show_id(v[1], depth)
        if k == "i":
            r = "+".join((self.show_id(i, depth - 1) if c == 1 else "%d*%s" % (c, self.show_id(i, depth - 1))) for i, c in v[1])
            return "(%s%s)" % (r, ("%+d" % v[2]) if v[1] and v[2] else ("" if v[1] else str(v[2])))
        if k == "b": return str(v[1]).lower()
        if k == "c":
            if v[1] == "t": return ("" if v[3] else "!") + self.show_id(v[2], depth)
            return "[%s%s 0]" % (s(("i",) + v[2]), (">=" if v[1] == "ge" else ("==" if v[3] else "!=")))
        if k == "adt":
            vs = self.variants(v[1])
            n = v[1].split("::")[-1]
            if vs and len(vs) > v[2] and len(vs) > 1: n += "::" + vs[v[2]]
            return n + ("(%s)" % ", ".join(map(s, v[3])) if v[3] else "")
        if k == "tup": return "(%s)" % ", ".join(map(s, v[1]))
        if k == "clo": return "closure(%s)" % v[1].split("::")[-2]
        if k == "ref": return "&%s%s" % (v[1], v[2] or "")
        if k == "rv": return "&" + s(v[1])
        if k == "view": return "%s[%s;%s]" % (s(v[1]), s(v[2]), s(v[3]))
        if k == "seq": return "[%s]" % ", ".join((("*" + self.show_id(c[1], depth - 1)) if c[0] == "ck" else s(c[1])) for c in v[1])
        return str(v)[:200]

    def show_id(self, i, depth=6):
        if depth <= 0: return "…"
        st = self.T.structs[i]
        k = st[0]
        if k == "#": return "%s#%d" % (st[2], st[1])
        if k == "phi": return "phi%d" % i
        if k == "*": return "*" + self.show_id(st[1][1], depth)
        if k == "f": return "%s.%s" % (self.show_id(st[3][1], depth), st[2])
        if k == "len": return "len(%s)" % self.show_id(st[1][1], depth - 1)
        if k == "elem": return "%s[%s]" % (self.show(st[1], depth - 1), self.show(st[2], depth - 1))
        if k == "app": return "%s(%s)" % (st[1].split("::")[-1], ", ".join(self.show(a, depth - 1) for a in st[2:]))
        return str(st)[:100]

    # -------------------------------------------------------------- types
    def transparent(self, path):
        r = self._transparent.get(path)
        if r is None:
            a = self.F.adts.get(path)
            r = bool(a and a["kind"] == "struct" and len(a["variants"][0]["fields"]) == 1 and a["variants"][0]["fields"][0]["ty"]["k"] == "int")
            self._transparent[path] = r
        return r

    def variants(self, path):
        if path in VARIANTS: return VARIANTS[path]
        a = self.F.adts.get(path) or self.M.adts.get(path)
        return [v["name"] for v in a["variants"]] if a else None

    def adt_info(self, path):
        return self.F.adts.get(path) or self.M.adts.get(path)

    # -------------------------------------------------------------- projection
    def fld(self, v, idx, name, vname="", on=""):
        if on and self.transparent(on):
            return v
        k = v[0]
        if k == "adt":
            if idx < len(v[3]): return v[3][idx]
            raise Unsupported("field %s of %s" % (name, self.show(v)))
        if k == "tup": return v[1][idx]
        if k == "clo": return v[2][idx]
        if k == "s":
            st = self.T.structs[v[1]]
            struct = ("f", vname, name, ("T", v[1]))
            r = self.ck.proj_hook(self, struct)
            return r if r is not None else ("s", self.T.intern(struct))
        if k == "w":
            for kk, vv in v[2]:
                if kk == (vname, name): return vv
            return self.fld(v[1], idx, name, vname, on)
        if k in ("rv",) and on in ("alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull"):
            return v
        if k in ("ref", "view") and on in ("alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull"):
            return v
        return ("s", self.T.intern(("f", vname, name, ("V", v))))

    def proj(self, st, v, e):
        k = e[0]
        if k == "f": return self.fld(v, e[1], e[2], e[3], e[4])
        if k == "x": return self.index(st, v, e[1])
        raise Unsupported("projection %s" % (e,))

    def seq(self, v):
        """chunks of a sequence value"""
        if v[0] == "seq": return v[1]
        if v[0] == "arr": return tuple(("it", x) for x in v[1])
        if v[0] == "slice":
            if v[2] == const(0) and v[3] == num(self.seqlen(v[1])): return self.seq(v[1])
            return (("ck", self.T.intern(("sl",) + v[1:])),)
        if v[0] == "s": return (("ck", v[1]),)
        if v[0] == "str": return (("ck", self.T.intern(("str", v[1]))),)
        return (("ck", self.T.intern(("v", v))),)

    def cklen(self, i):
        a = self.chunk_len.get(i)
        if a is not None: return a
        stt = self.T.structs[i]
        if stt[0] == "sl": return aff(stt[3])
        if stt[0] == "str": return ((), len(stt[1].encode()))
        if stt[0] == "mod": return self.cklen(stt[1][1])
        if stt[0] == "repeat" and re.match(r"\d+$", stt[2]): return ((), int(stt[2]))
        if stt[0] == "v" and stt[1][0] == "upd": return self.seqlen(stt[1][1])
        return (((self.T.intern(("len", ("T", i))), 1),), 0)

    def seqlen(self, v):
        t = ((), 0)
        for c in self.seq(v):
            t = L.shift(t, 1) if c[0] == "it" else L.add(t, self.cklen(c[1]))
        return t

    def measure(self, name, v):
        """affine measure of a sequence, None when an item does not have it"""
        if name == "#len": return self.seqlen(v)
        t = ((), 0)
        f = self.measures[name]
        for c in self.seq(v):
            if c[0] == "it":
                a = f(self, c[1])
                if a is None: return None
                t = L.add(t, a)
            else:
                t = L.add(t, self.ckmeasure(name, c[1]))
        return t

    def ckmeasure(self, name, i):
        a = self.chunk_meas.get((name, i))
        if a is not None: return a
        return (((self.T.intern(("meas", name, ("T", i))), 1),), 0)

    def locate(self, st, chunks, ia):
        """index of the chunk containing position ia and local offset, or None"""
        pos = ((), 0)
        for n, c in enumerate(chunks):
            d = L.add(ia, pos, -1)
            if c[0] == "it":
                if d == ((), 0): return n, d
                if d[0] and self.holds(st, d) and self.holds(st, L.neg(d)): return n, ((), 0)
                pos = L.shift(pos, 1)
            else:
                ln = self.cklen(c[1])
                if self.holds(st, d) and self.holds(st, L.shift(L.add(ln, d, -1), -1)): return n, d
                pos = L.add(pos, ln)
        return None

    def elem(self, i, off):
        stt = self.T.structs[i]
        if stt[0] == "sl":
            b = self.seq(stt[1])
            return ("s", self.T.intern(("elem", stt[1], num(L.add(aff(off), aff(stt[2]))))))
        if stt[0] == "repeat": return stt[1]
        s = ("elem", ("s", i), off)
        r = self.ck.proj_hook(self, s)
        return r if r is not None else ("s", self.T.intern(s))

    def index(self, st, v, idx):
        ia = aff(idx)
        if v[0] == "slice":
            return self.index(st, v[1], num(L.add(ia, aff(v[2]))))
        if v[0] == "upd":
            for (i, x) in reversed(v[2]):
                d = L.add(ia, aff(i), -1)
                if d == ((), 0): return x
                if not self.holds(st, L.shift(d, -1)) and not self.holds(st, L.shift(L.neg(d), -1)):
                    return ("s", self.T.intern(("elem", v, idx)))
            return self.index(st, v[1], idx)
        if v[0] == "s":
            return self.elem(v[1], idx)
        if v[0] in ("seq", "arr"):
            ch = self.seq(v)
            if len(ch) == 1 and ch[0][0] == "ck": return self.elem(ch[0][1], idx)
            r = self.locate(st, ch, ia)
            if r:
                c = ch[r[0]]
                return c[1] if c[0] == "it" else self.elem(c[1], num(r[1]))
        return ("s", self.T.intern(("elem", v, idx)))

    def upd_proj(self, st, v, proj, val):
        if not proj: return val
        e = proj[0]
        if e[0] == "f":
            _, idx, name, vname, on = e
            if on and self.transparent(on): return self.upd_proj(st, v, proj[1:], val)
            if v[0] in ("s", "uninit") and on:
                a = self.adt_info(on)
                if a and a["kind"] == "struct":
                    v = ("adt", on, 0, tuple(self.fld(v, i, f["name"], "", on) if v[0] == "s" else ("uninit",) for i, f in enumerate(a["variants"][0]["fields"])))
            if v[0] == "adt":
                if idx >= len(v[3]):
                    raise Unsupported("field write %s" % name)
                fs = list(v[3]); fs[idx] = self.upd_proj(st, fs[idx], proj[1:], val)
                return ("adt", v[1], v[2], tuple(fs))
            if v[0] in ("tup", "clo"):
                j = 1 if v[0] == "tup" else 2
                fs = list(v[j]); fs[idx] = self.upd_proj(st, fs[idx], proj[1:], val)
                return v[:j] + (tuple(fs),)
            old = self.fld(v, idx, name, vname, on) if v[0] in ("s", "w") else self.fresh("f")
            nv = self.upd_proj(st, old, proj[1:], val)
            if v[0] == "w":
                d = dict(v[2]); base = v[1]
            else:
                d = {}; base = v
            d[(vname, name)] = nv
            return ("w", base, tuple(sorted(d.items(), key=lambda t: t[0])))
        if e[0] == "x":
            ia = aff(e[1])
            if v[0] in ("seq", "arr"):
                ch = list(self.seq(v))
                r = self.locate(st, ch, ia)
                if r:
                    c = ch[r[0]]
                    if c[0] == "it":
                        ch[r[0]] = ("it", self.upd_proj(st, c[1], proj[1:], val))
                    else:
                        old = self.elem(c[1], num(r[1]))
                        nv = self.upd_proj(st, old, proj[1:], val)
                        ni = self.T.intern(("mod", ("T", c[1]), num(r[1]), nv))
                        if c[1] in self.chunk_attr: self.chunk_attr[ni] = self.chunk_attr[c[1]]
                        self.chunk_len[ni] = self.cklen(c[1])
                        ch[r[0]] = ("ck", ni)
                    return ("seq", tuple(ch))
            old = self.index(st, v, e[1])
            nv = self.upd_proj(st, old, proj[1:], val)
            if v[0] == "upd":
                keep = []
                for (i, x) in v[2]:
                    d = L.add(ia, aff(i), -1)
                    if d == ((), 0): continue
                    keep.append((i, x))
                if not keep and nv == self.index(st, v[1], e[1]): return v[1]
                return ("upd", v[1], tuple(keep) + ((e[1], nv),))
            if nv == old: return v
            return ("upd", v, ((e[1], nv),))
        raise Unsupported("write through %s" % (e,))

    # -------------------------------------------------------------- memory
    def getcell(self, st, cell):
        v = st.mem.get(cell)
        if v is None:
            if cell[0] == "D":
                return ("s", self.T.intern(("*", ("T", cell[1]))))
            return ("uninit",)
        return v

    def load(self, st, r):
        k = r[0]
        if k == "ref":
            v = self.getcell(st, r[1])
            for e in r[2]: v = self.proj(st, v, e)
            return v
        if k == "rv": return r[1]
        if k == "view":
            b = self.load(st, r[1])
            return ("slice", b, r[2], r[3])
        if k == "s": return self.getcell(st, ("D", r[1]))
        if k == "str": return r
        if k == "fn" or k == "clo": return r
        raise Unsupported("deref of %s" % (self.show(r),))

    def store(self, st, r, val):
        k = r[0]
        if k == "ref":
            if not r[2]:
                st.mem[r[1]] = val
            else:
                st.mem[r[1]] = self.upd_proj(st, self.getcell(st, r[1]), r[2], val)
            return
        if k == "s":
            st.mem[("D", r[1])] = val
            return
        if k == "view": return  # whole-slice store: not used
        raise Unsupported("store to %s" % (self.show(r),))

    def deref(self, v):
        """reference value -> canonical place reference"""
        if v[0] == "s": return ("ref", ("D", v[1]), ())
        if v[0] in ("ref", "rv", "view", "str"): return v
        if v[0] == "adt" and len(v[3]) == 1 and v[1] in ("alloc::boxed::Box",):
            return ("rv", v[3][0])
        return ("rv", ("s", self.T.intern(("*v", v))))

    def place_ref(self, st, fr, p):
        r = ("ref", ("L", fr.fid, p["l"]), ())
        vname = ""
        for e in p["p"]:
            k = e[0]
            if k == "deref":
                r = self.deref(self.load(st, r)); vname = ""
            elif k == "downcast":
                vname = e[2]
            elif k == "field":
                r = self.pref(st, r, ("f", e[1], e[2], vname, canon(e[3]))); vname = ""
            elif k == "index":
                iv = self.getcell(st, ("L", fr.fid, e[1]))
                r = self.pref(st, r, ("x", iv))
            elif k == "cindex":
                if e[3]:
                    ln = self.reflen(st, r)
                    iv = num(L.shift(ln, -e[1]))
                else:
                    iv = const(e[1])
                r = self.pref(st, r, ("x", iv))
            elif k == "subslice":
                ln = self.reflen(st, r)
                end = L.shift(ln, -e[2]) if e[3] else ((), e[2])
                r = ("view", r, const(e[1]), num(L.shift(end, -e[1]))) if r[0] != "view" else ("view", r[1], num(L.shift(aff(r[2]), e[1])), num(L.shift(end, -e[1])))
            else:
                raise Unsupported("place elem %s" % k)
        return r

    def reflen(self, st, r):
        if r[0] == "view": return aff(r[3])
        return self.seqlen(self.load(st, r))

    def pref(self, st, r, e):
        if r[0] == "ref":
            if e[0] == "f" and e[4] and self.transparent(e[4]): return r
            return ("ref", r[1], r[2] + (e,))
        if r[0] == "view" and e[0] == "x":
            return self.pref(st, r[1], ("x", num(L.add(aff(r[2]), aff(e[1])))))
        return ("rv", self.proj(st, self.load(st, r), e))

    def snap(self, st, v, depth=0):
        """deep snapshot: references replaced by what they point to"""
        if depth > 12: return v
        k = v[0]
        if k == "ref": return ("rv", self.snap(st, self.load(st, v), depth + 1))
        if k == "rv": return ("rv", self.snap(st, v[1], depth + 1))
        if k == "view": return ("rv", self.snap(st, ("slice", self.load(st, v[1]), v[2], v[3]), depth + 1))
        if k == "slice":
            b = self.snap(st, v[1], depth + 1)
            return ("slice", b, v[2], v[3])
        if k == "adt": return v[:3] + (tuple(self.snap(st, x, depth + 1) for x in v[3]),)
        if k in ("tup", "arr"): return (k, tuple(self.snap(st, x, depth + 1) for x in v[1]))
        if k == "clo": return ("clo", v[1], tuple(self.snap(st, x, depth + 1) for x in v[2]))
        if k == "s":
            c = st.mem.get(("D", v[1]))
            return ("rv", self.snap(st, c, depth + 1)) if c is not None else v
        if k == "seq": return ("seq", tuple(("it", self.snap(st, c[1], depth + 1)) if c[0] == "it" else c for c in v[1]))
        return v

    # -------------------------------------------------------------- logic
    def close(self, st, q):
        facts, ids = L.relevant(st.facts, [i for i, _ in q[0]])
        cs = set(facts)
        for i in ids: cs.add((((i, 1),), 0))
        for ax in self.axioms:
            cs.update(ax(self, ids))
        return cs

    def holds(self, st, q):
        if not q[0]: return q[1] >= 0
        if q[1] >= 0 and all(c > 0 for _, c in q[0]): return True
        if q in st.facts: return True
        cs = self.close(st, q)
        cs.add(L.shift(L.neg(q), -1))
        return L.infeasible(frozenset(cs))

    def consistent(self, st, q):
        cs = self.close(st, q)
        cs.add(q)
        return not L.infeasible(frozenset(cs))

    def decide(self, st, c):
        if c[0] == "b": return c[1]
        if c[0] == "s":
            return st.bools.get(c[1])
        if c[0] == "c":
            _, k, d, pol = c
            if k == "t":
                b = st.bools.get(d)
                return None if b is None else (b == pol)
            if k == "ge":
                if self.holds(st, d): return True
                if self.holds(st, L.shift(L.neg(d), -1)): return False
                return None
            if k == "eq":
                r = None
                if d == ((), 0): r = True
                elif not d[0]: r = False
                elif d in st.neq or L.neg(d) in st.neq: r = False
                else:
                    a, b = self.holds(st, d), self.holds(st, L.neg(d))
                    if a and b: r = True
                    elif (a and self.holds(st, L.shift(d, -1))) or (b and self.holds(st, L.shift(L.neg(d), -1))): r = False
                return None if r is None else (r == pol)
        return None

    def assume(self, st, c, val):
        """mutates st; returns False if contradictory"""
        d = self.decide(st, c)
        if d is not None: return d == val
        if c[0] == "s":
            st.bools[c[1]] = val
            return True
        if c[0] == "c":
            _, k, d, pol = c
            if k == "t":
                st.bools[d] = (pol == val)
                return True
            if k == "ge":
                q = d if val else L.shift(L.neg(d), -1)
                if not self.consistent(st, q): return False
                self.addfact(st, q)
                return self.neq_tighten(st)
            if k == "eq":
                if pol == val:
                    st.facts = st.facts | {L.norm(d), L.norm(L.neg(d))}
                    if not self.consistent(st, d): return False
                    return self.neq_tighten(st)
                if self.holds(st, d):
                    st.facts = st.facts | {L.shift(d, -1)}
                elif self.holds(st, L.neg(d)):
                    st.facts = st.facts | {L.shift(L.neg(d), -1)}
                else:
                    st.neq = st.neq | {d}
                return True
        return True

    def addfact(self, st, q):
        q = L.norm(q)
        st.facts = frozenset(f for f in st.facts if f[0] != q[0] or f[1] < q[1]) | {q}

    def learn(self, st, q):
        """add a fact; False if the state becomes impossible"""
        if not self.consistent(st, q): return False
        self.addfact(st, q)
        return True

    def neq_tighten(self, st):
        for d in list(st.neq):
            a, b = self.holds(st, d), self.holds(st, L.neg(d))
            if a and b: return False
            if a: st.facts = st.facts | {L.shift(d, -1)}; st.neq = st.neq - {d}
            elif b: st.facts = st.facts | {L.shift(L.neg(d), -1)}; st.neq = st.neq - {d}
        return True

    def fork(self, st, c):
        """[(st, bool)]"""
        d = self.decide(st, c)
        if d is not None: return [(st, d)]
        out = []
        s2 = st.copy()
        if self.assume(s2, c, True): out.append((s2, True))
        if self.assume(st, c, False): out.append((st, False))
        for s, b in out: self.ck.on_assume(self, s, c, b)
        return out

    def var_of(self, st, v):
        """known variant index of an enum value or None"""
        if v[0] == "adt": return v[2]
        if v[0] == "s":
            x = st.vars.get(v[1])
            return x if isinstance(x, int) else None
        return None

    def fork_variant(self, st, v, idx, n=2):
        """[(st, is_idx)]"""
        if v[0] == "adt": return [(st, v[2] == idx)]
        if v[0] != "s": return [(st, True), (st.copy(), False)]
        x = st.vars.get(v[1])
        if isinstance(x, int): return [(st, x == idx)]
        if isinstance(x, frozenset) and idx in x: return [(st, False)]
        s2 = st.copy()
        s2.vars[v[1]] = idx
        ex = (x or frozenset()) | {idx}
        rest = [i for i in range(n) if i not in ex]
        out = [(s2, True)]
        if rest:
            st.vars[v[1]] = rest[0] if len(rest) == 1 else ex
            out.append((st, False))
        return out

    # -------------------------------------------------------------- operands and rvalues
    def operand(self, st, fr, o):
        if o[0] in ("copy", "move"):
            p = o[1]
            if not p["p"]:
                return self.getcell(st, ("L", fr.fid, p["l"]))
            return self.load(st, self.place_ref(st, fr, p))
        c = o[1]
        if "fn" in c:
            return ("fn", canon(c["resolved"] or c["fn"]), c["name"], canon(c["trait"]), c["rkind"]) + self.instof(c["args"])
        if c.get("c"):
            d = c["c"]
            if "int" in d:
                return self.const_int(d["int"], c)
            if "str" in d: return ("str", d["str"])
            if "zst" in d: return self.zst(c["ty"])
        it = c.get("item")
        if it and "promoted" in it:
            owner = self.find_fn(canon(it["of"]), fr.fn)
            if owner and it["promoted"] < len(owner.promoted):
                return self.eval_promoted(st, owner.promoted[it["promoted"]])
        if it and "const" in it:
            f = self.find_fn(canon(it["const"]), None)
            if f and f.kind in ("const",):
                try:
                    return self.eval_promoted(st, f)
                except Unsupported:
                    pass
        return ("s", self.T.intern(("k", c["pp"])))

    def const_int(self, n, c):
        k = c["ty"]["k"]
        if k == "bool": return ("b", bool(n))
        if k == "adt":
            p = canon(c["ty"]["def"])
            a = self.adt_info(p)
            if a and a["kind"] == "enum" and all(not v["fields"] for v in a["variants"]) and n < len(a["variants"]):
                return ("adt", p, n, ())
            if p == ORDERING: return ("adt", p, {255: 0, -1: 0, 0: 1, 1: 2}[n], ())
            if self.transparent(p): return const(n)
            if a and a["kind"] == "struct" and len(a["variants"][0]["fields"]) == 1:
                pass
            return ("s", self.T.intern(("k", c["pp"])))
        return const(n)

    def instof(self, args):
        """what a function item is instantiated with, if that matters"""
        if not any(t["k"] == "adt" for t in args): return ()
        k = tuple(t["s"] for t in args)
        self.insts[k] = args
        return (k,)

    def zst(self, ty):
        if ty["k"] == "tuple": return UNIT
        if ty["k"] == "closure": return ("clo", canon(ty["def"]), ())
        if ty["k"] == "adt": return ("adt", canon(ty["def"]), 0, ())
        if ty["k"] == "fndef": return ("fn", canon(ty["def"]), canon(ty["def"]).split("::")[-1], None, "item")
        return ("s", self.T.intern(("k", "zst " + ty["s"])))

    def find_fn(self, path, near):
        f = self.F.fns.get(path) or self.M.fns.get(path)
        if near is not None and near.path == path: return near
        return f

    def eval_promoted(self, st, f):
        s = St()
        q, self.quiet = self.quiet, self.quiet + 1
        try:
            outs = self.run(f, [], s)
        finally:
            self.quiet = q
        if len(outs) != 1: return ("s", self.T.intern(("k", f.path)))
        s2, v = outs[0]
        return v

    def discr_value(self, path, variant):
        if path == ORDERING: return [255, 0, 1][variant]
        return variant

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use": return self.operand(st, fr, r[1])
        if k in ("ref", "rawptr"):
            x = self.place_ref(st, fr, r[2])
            if x[0] == "ref" and x[1][0] == "D" and not x[2]: return ("s", x[1][1])
            return x
        if k == "bin": return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]))
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not": return self.notv(v)
            if r[1] == "PtrMetadata": return num(self.reflen(st, self.deref(v)))
            if r[1] == "Neg": return self.app("neg", v)
            return self.app(r[1], v)
        if k == "cast":
            return self.cast(fr, r, self.operand(st, fr, r[2]))
        if k == "discr":
            v = self.load(st, self.place_ref(st, fr, r[1]))
            if v[0] == "adt": return const(self.discr_value(v[1], v[2]))
            if v[0] == "s": return ("discr", v[1], canon(r[2].get("def", "")))
            if v[0] == "w": return ("discr", self.T.intern(("v", v[1])) if v[1][0] != "s" else v[1][1], canon(r[2].get("def", "")))
            return ("discr", self.T.intern(("v", v)), canon(r[2].get("def", "")))
        if k == "adt":
            p = canon(r[1])
            ops = tuple(self.operand(st, fr, o) for o in r[4])
            if self.transparent(p): return ops[0]
            return ("adt", p, r[2], ops)
        if k == "tuple": return ("tup", tuple(self.operand(st, fr, o) for o in r[1]))
        if k == "array": return ("arr", tuple(self.operand(st, fr, o) for o in r[1]))
        if k == "closure": return ("clo", canon(r[1]), tuple(self.operand(st, fr, o) for o in r[2]))
        if k == "repeat":
            n = re.match(r"(\d+)", r[2])
            v = self.operand(st, fr, r[1])
            i = self.T.intern(("repeat", v, r[2]))
            return ("s", i)
        if k == "agg": return ("s", self.T.intern(("agg",) + tuple(self.operand(st, fr, o) for o in r[1])))
        return self.fresh("rv")

    BITS = {"bool": 1, "u8": 8, "i8": 8, "u16": 16, "i16": 16, "char": 32, "u32": 32, "i32": 32, "f32": 32}

    def cast(self, fr, r, v):
        """Casts keep the value, apart from those to less than 32 bits (sizes and counts are taken to fit in 32)
        and those that involve floating point numbers. The kinds of m_lexer have 16 bits, whoever numbers them."""
        kind, to = r[1], r[3]["s"]
        if kind in ("IntToFloat", "FloatToInt", "FloatToFloat"): return self.app(kind + ":" + to, v)
        if kind != "IntToInt" or self.BITS.get(to, 64) >= 32: return v
        frm = None
        if r[2][0] in ("copy", "move") and not r[2][1].get("p"): frm = fr.fn.locals[r[2][1]["l"]][0]["s"]
        if self.BITS.get(frm, 64) <= self.BITS[to]: return v
        if v[0] == "i" and not v[1] and 0 <= v[2] < 2 ** (self.BITS[to] - (to[0] == "i")): return v
        if to == "u16" and any(s[0] == "=" and s[2][0] == "adt" and s[2][1].startswith("m_lexer::") for b in fr.fn.blocks for s in b["s"]): return v
        return self.app("cut:" + to, v)

    def notv(self, v):
        if v[0] == "b": return ("b", not v[1])
        if v[0] == "c":
            if v[1] == "ge": return ("c", "ge", L.shift(L.neg(v[2]), -1), True)
            return ("c", v[1], v[2], not v[3])
        if v[0] == "s": return ("c", "t", v[1], False)
        return self.app("not", v)

    def cmp(self, op, a, b):
        x, y = aff(a), aff(b)
        if x is not None and y is not None:
            d = L.add(x, y, -1)  # a-b
            if op == "Ge": q = ("c", "ge", d, True)
            elif op == "Gt": q = ("c", "ge", L.shift(d, -1), True)
            elif op == "Le": q = ("c", "ge", L.neg(d), True)
            elif op == "Lt": q = ("c", "ge", L.shift(L.neg(d), -1), True)
            elif op in ("Eq", "Ne"):
                if d == ((), 0): return ("b", op == "Eq")
                if not d[0]: return ("b", op == "Ne")
                if d[0][0][1] < 0: d = L.neg(d)
                return ("c", "eq", d, op == "Eq")
            if not q[2][0]: return ("b", q[2][1] >= 0)
            return q
        if op in ("Eq", "Ne"):
            for p, r in ((a, b), (b, a)):
                if p[0] == "b":
                    want = p[1] == (op == "Eq")
                    return r if want else self.notv(r)
            if a == b: return ("b", op == "Eq")
            if a[0] == "str" and b[0] == "str": return ("b", (a[1] == b[1]) == (op == "Eq"))
            x, y = sorted((a, b), key=repr)
            return ("c", "t", self.T.intern(("app", "eqv", x, y)), op == "Eq")
        return ("c", "t", self.T.intern(("app", "cmp" + op, a, b)), True)

    def binop(self, st, op, a, b):
        wo = op.endswith("WithOverflow")
        base = op[:-12] if wo else op
        if base.endswith("Unchecked"): base = base[:-9]
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"): return self.cmp(base, a, b)
        x, y = aff(a), aff(b)
        if base in ("Add", "Sub") and x is not None and y is not None:
            r = num(L.add(x, y, 1 if base == "Add" else -1))
            if wo:
                ov = ("b", False) if base == "Add" else ("c", "ge", L.shift(L.add(y, x, -1), -1), True)
                if ov[0] == "c" and not ov[2][0]: ov = ("b", ov[2][1] >= 0)
                return ("tup", (r, ov))
            return r
        if base == "Mul" and x is not None and y is not None and (not x[0] or not y[0]):
            r = num(L.scale(y, x[1]) if not x[0] else L.scale(x, y[1]))
            return ("tup", (r, FALSE)) if wo else r
        if base == "BitAnd":
            if a == FALSE or b == FALSE: return FALSE
            if a == TRUE: return b
            if b == TRUE: return a
            if a[0] == "c" or b[0] == "c" or a[0] == "b" or b[0] == "b":
                return ("c", "t", self.T.intern(("app", "and", a, b)), True)
            return b if False else self.app("BitAnd", a, b)
        if base == "BitOr":
            if a == TRUE or b == TRUE: return TRUE
            if a == FALSE: return b
            if b == FALSE: return a
            if a[0] == "c" or b[0] == "c":
                return ("c", "t", self.T.intern(("app", "or", a, b)), True)
        r = self.app(base, a, b)
        return ("tup", (r, FALSE)) if wo else r

    # -------------------------------------------------------------- running
    def fn_info(self, fn):
        i = self.info.get(id(fn))
        if i is None:
            i = cfg_info(fn)
            self.info[id(fn)] = i
        return i

    def run(self, fn, args, st):
        """inline execution; returns [(st, ret)]"""
        if len(self.stack) > self.max_depth: raise TooComplex("call depth at %s" % fn.path)
        self.fid += 1
        fr = Frame(fn, self.fid, self.fn_info(fn))
        if len(args) != fn.argc:
            raise Unsupported("arity of %s: %d given" % (fn.path, len(args)))
        for i, a in enumerate(args): st.mem[("L", fr.fid, i + 1)] = a
        self.stack.append(fn)
        try:
            outs = self.explore(fr, [(0, st)])
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            assert o[0] == "ret"
            s = o[1]
            v = s.mem.get(("L", fr.fid, 0), UNIT)
            if v == ("uninit",): v = UNIT
            v = self.unlocal(s, v, fr.fid)
            for c in [c for c in s.mem if c[0] == "L" and c[1] == fr.fid]: del s.mem[c]
            res.append((s, v))
        return self.dedupe(res)

    def unlocal(self, st, v, fid):
        """references into a returning frame become snapshots"""
        k = v[0]
        if k == "ref" and v[1][0] == "L" and v[1][1] == fid:
            return ("rv", self.unlocal(st, self.load(st, v), fid))
        if k == "adt": return v[:3] + (tuple(self.unlocal(st, x, fid) for x in v[3]),)
        if k in ("tup", "arr"): return (k, tuple(self.unlocal(st, x, fid) for x in v[1]))
        if k == "seq": return ("seq", tuple(("it", self.unlocal(st, c[1], fid)) if c[0] == "it" else c for c in v[1]))
        if k == "clo": return ("clo", v[1], tuple(self.unlocal(st, x, fid) for x in v[2]))
        if k == "rv": return ("rv", self.unlocal(st, v[1], fid))
        if k == "view": return ("view", self.unlocal(st, v[1], fid)) + v[2:]
        return v

    def dedupe(self, res):
        seen = {}
        for s, v in res:
            seen.setdefault((s.sig(), v), (s, v))
        return list(seen.values())

    def explore(self, fr, starts, head=None, body=None):
        outs = []
        heap = []
        cnt = 0
        rpo = fr.rpo
        pend = {}
        for b, s in starts:
            pend.setdefault(b, []).append(s)
        first = head is not None
        while pend:
            b = min(pend, key=lambda x: rpo[x])
            states = pend.pop(b)
            if len(states) > 1:
                u = {}
                for s in states:
                    self.prune(fr, b, s)
                    u.setdefault(s.sig(), s)
                states = list(u.values())
            if len(states) > self.max_paths: raise TooComplex("too many paths in %s" % fr.fn.path)
            if b in fr.loops and not (first and b == head):
                res = self.do_loop(fr, b, states)
            else:
                res = []
                for s in states: res.extend(self.block(fr, b, s))
            first = False
            for o in res:
                if o[0] == "ret":
                    outs.append(o)
                    continue
                _, t, s = o
                if head is not None:
                    if t == head:
                        outs.append(("back", t, s)); continue
                    if t not in body:
                        outs.append(("goto", t, s)); continue
                pend.setdefault(t, []).append(s)
        return outs

    def prune(self, fr, b, s):
        live = fr.live[b]
        for c in [c for c in s.mem if c[0] == "L" and c[1] == fr.fid and c[2] not in live]:
            del s.mem[c]
        bs = {c for c in s.mem if c[0] == "B"}
        if bs:   # boxes nothing refers to any more
            seen, todo = set(), [v for c, v in s.mem.items() if c[0] != "B"]
            while todo:
                v = todo.pop()
                if not isinstance(v, tuple): continue
                if len(v) == 2 and v[0] == "B":
                    if v in bs and v not in seen:
                        seen.add(v); todo.append(s.mem[v])
                    continue
                todo.extend(v)
            for c in bs - seen: del s.mem[c]

    def block(self, fr, b, st):
        """execute one block; returns [('goto', t, st) | ('ret', st)]"""
        self.steps += 1
        if self.steps > self.max_steps: raise TooComplex("step budget exhausted in %s" % fr.fn.path)
        fn = fr.fn
        blk = fn.blocks[b]
        if not self.quiet: self.visited.add((fn.path, b))
        for s in blk["s"]:
            if s[0] == "=":
                v = self.rvalue(st, fr, s[2])
                if not s[1]["p"]:
                    st.mem[("L", fr.fid, s[1]["l"])] = v
                else:
                    r = self.place_ref(st, fr, s[1])
                    self.write(st, r, v, fn, s[3])
            elif s[0] == "dead":
                st.mem.pop(("L", fr.fid, s[1]), None)
            elif s[0] == "setdiscr":
                r = self.place_ref(st, fr, s[1])
                self.store(st, r, ("s", self.T.intern(("setdiscr", s[2], self.load(st, r)))))
        t = blk["t"]
        k = t["k"]
        if k == "goto": return [("goto", t["t"], st)]
        if k == "return": return [("ret", st)]
        if k in ("unreachable", "resume"): return []
        if k == "switch": return self.switch(fr, t, st)
        if k == "assert":
            c = self.operand(st, fr, t["c"])
            if t["m"] in ("bounds", "sub", "add", "overflow"):
                self.ck.on_assert(self, st, t["m"], c if t["e"] else self.notv(c), fn, t.get("sp"))
                if c[0] in ("b", "c", "s"):
                    if not self.assume(st, c, t["e"]): return []
            return [("goto", t["t"], st)]
        if k == "drop":
            if not self.quiet or True:
                pv = self.place_ref(st, fr, t["p"]) if t["p"]["p"] else ("ref", ("L", fr.fid, t["p"]["l"]), ())
                r = self.ck.on_drop(self, st, pv, t["ty"], fn, t.get("sp"))
            return [("goto", t["t"], st)]
        if k == "call":
            f = t["f"]
            args = [self.operand(st, fr, a) for a in t["a"]]
            dref = self.place_ref(st, fr, t["d"]) if t["d"]["p"] else ("ref", ("L", fr.fid, t["d"]["l"]), ())
            outs = []
            for s2, v in self.call(fr, t, f, args, st):
                if t["t"] is None:
                    continue
                self.write(s2, dref, v, fn, t.get("sp"))
                outs.append(("goto", t["t"], s2))
            return outs
        raise Unsupported("terminator %s" % k)

    def write(self, st, r, v, fn, span):
        if r[0] == "ref" and (r[1][0] != "L" or any(e[0] == "x" for e in r[2])):
            self.ck.on_write(self, st, r[1], r[2], v, fn, span)
        self.store(st, r, v)

    def switch(self, fr, t, st):
        d = self.operand(st, fr, t["d"])
        vals, other = t["v"], t["o"]
        unreach = fr.fn.blocks[other]["t"]["k"] == "unreachable" and not fr.fn.blocks[other]["s"]
        if t["ty"]["k"] == "bool":
            outs = []
            for s, b in self.fork(st, d if d[0] in ("b", "c", "s") else ("s", self.T.intern(("v", d)))):
                n = 1 if b else 0
                tg = next((x[1] for x in vals if x[0] == n), other)
                outs.append(("goto", tg, s))
            return outs
        if d[0] == "i" and not d[1]:
            tg = next((x[1] for x in vals if x[0] == d[2]), other)
            return [("goto", tg, st)]
        if d[0] == "discr":
            i, path = d[1], d[2]
            known = st.vars.get(i)
            vs = self.variants(path)
            inv = lambda n: {255: 0, 0: 1, 1: 2}[n] if path == ORDERING else n
            if isinstance(known, int):
                tg = next((x[1] for x in vals if inv(x[0]) == known), other)
                return [("goto", tg, st)]
            ex = known or frozenset()
            outs = []
            for n, tg in vals:
                n = inv(n)
                if n in ex: continue
                s2 = st.copy(); s2.vars[i] = n
                self.ck.on_variant(self, s2, i, n, path)
                outs.append(("goto", tg, s2))
            if not unreach:
                ex2 = ex | {inv(n) for n, _ in vals}
                rest = [x for x in range(len(vs))] if vs else None
                if rest is not None:
                    rest = [x for x in rest if x not in ex2]
                    if not rest: return outs
                    st.vars[i] = rest[0] if len(rest) == 1 else ex2
                    self.ck.on_variant(self, st, i, st.vars[i], path)
                else:
                    st.vars[i] = ex2
                outs.append(("goto", other, st))
            return outs
        # integer switch
        a = aff(d)
        outs = []
        cur = st
        if a is None: a = (((self.T.intern(("v", d)), 1),), 0)
        for n, tg in vals:
            q = self.cmp("Eq", num(a), const(n))
            s2 = cur.copy()
            if self.assume(s2, q, True):
                self.ck.on_assume(self, s2, q, True)
                outs.append(("goto", tg, s2))
            if not self.assume(cur, q, False): return outs
        if vals: self.ck.on_assume(self, cur, q, False)
        if not unreach: outs.append(("goto", other, cur))
        return outs

    # -------------------------------------------------------------- calls
    def call(self, fr, t, f, args, st):
        if f[0] == "const" and "fn" in f[1]:
            c = f[1]
            name = canon(c["resolved"] or c["fn"])
            call = {"name": name, "method": c["name"], "trait": canon(c["trait"]), "rkind": c["rkind"], "targs": c["args"],
                    "aty": t["aty"], "dty": t["dty"], "fn": fr.fn, "span": t.get("sp"), "diverges": t["t"] is None, "resolved": c["resolved"] is not None}
            return self.dispatch(st, call, args)
        fv = self.operand(st, fr, f)
        call = {"name": "<indirect>", "method": "", "trait": None, "rkind": "", "targs": [], "aty": t["aty"], "dty": t["dty"], "fn": fr.fn,
                "span": t.get("sp"), "diverges": t["t"] is None, "resolved": False}
        r = self.ck.intercept(self, st, "<indirect>", [fv] + args, call)
        if r is not None: return r
        return self.call_value(st, fv, args, call)

    def call_value(self, st, fv, args, call):
        """call a callable value with spread args"""
        while fv[0] in ("ref", "rv"):
            fv = self.load(st, fv)
        if fv[0] == "clo": return self.call_closure(st, fv, args, call)
        if fv[0] == "fn":
            c2 = dict(call); c2["name"] = fv[1]; c2["method"] = fv[2]; c2["trait"] = fv[3]; c2["rkind"] = fv[4]
            c2["aty"] = [{"k": "other", "s": "?"}] * len(args)
            if len(fv) > 5:
                c2["targs"] = self.insts[fv[5]]
                fn = self.F.fns.get(fv[1])
                if fn is not None and fn.kind == "fn": c2["dty"] = fn.locals[0][0]
            return self.dispatch(st, c2, args)
        if fv[0] == "ctor":
            return [(st, fv[1] + (tuple(args),))]
        nm = self.snap(st, fv)
        c2 = dict(call); c2["name"] = "<call>"
        return self.opaque_call(st, "<call>", [fv] + args, c2, [None] + list(range(len(args))))

    def call_closure(self, st, selfv, args, call):
        """selfv: closure value or reference to it"""
        v = selfv
        ref = None
        while v[0] in ("ref", "rv", "s"):
            if v[0] == "s":
                content = st.mem.get(("D", v[1]))
                if content is None: break
                ref = v; v = content
                continue
            ref = v
            v = self.load(st, v)
        if v[0] == "clo":
            fn = self.F.fns.get(v[1]) or self.M.fns.get(v[1])
            if fn is None: raise Unsupported("closure %s has no body" % v[1])
            by_ref = fn.locals[1][0]["k"] == "ref"
            if by_ref:
                if ref is None or ref[0] == "rv" and False:
                    self.fid += 1
                    cell = ("L", 0, self.fid)
                    st.mem[cell] = v
                    ref = ("ref", cell, ())
                a0 = ref
            else:
                a0 = v
            if sum(1 for x in self.stack if x is fn) > 0:
                raise Unsupported("recursive closure")
            r = self.ck.intercept(self, st, fn.path, [a0] + args, call)
            if r is not None: return r
            return self.run(fn, [a0] + args, st)
        return self.call_value(st, v, args, call)

    def tuple_args(self, st, v):
        if v[0] == "tup": return list(v[1])
        if v[0] == "s":
            return [v]
        return [v]

    def dispatch(self, st, call, args):
        name, meth, trait = call["name"], call["method"], call["trait"]
        r = self.ck.intercept(self, st, name, args, call)
        if r is not None: return r
        # closure calls
        if trait in ("core::ops::function::Fn", "core::ops::function::FnMut", "core::ops::function::FnOnce") and meth in ("call", "call_mut", "call_once"):
            a = self.tuple_args(st, args[1])
            return self.call_closure(st, args[0], a, call)
        if call["rkind"] == "item" or not call["trait"] or name in self.F.fns:
            fn = self.F.fns.get(name)
            if fn is not None and fn.kind in ("fn",) and not (call["rkind"] == "virtual") and not (fn.of_trait and call["rkind"] != "item"):
                if name in self.F.dups:
                    fn = self.pick_dup(name, args, call)
                return self.call_fn(st, fn, args, call)
        import builtins_rs
        r = builtins_rs.call(self, st, call, args)
        if r is not None:
            self.ck.on_result(self, call, args, r)
            return r
        # dynamic dispatch on the runtime value
        if trait and args:
            v = args[0]
            for _ in range(4):
                if v[0] in ("ref", "rv"): v = self.load(st, v)
                elif v[0] == "s" and ("D", v[1]) in st.mem: v = st.mem[("D", v[1])]
                else: break
            path = v[1] if v[0] == "adt" else self.tyof.get(v[1]) if v[0] == "s" else None
            if path:
                for i in self.impl_index.get((trait, path), []):
                    for it in i["items"]:
                        if it.split("::")[-1] == meth:
                            fn = self.F.fns.get(it) or self.M.fns.get(it)
                            if fn:
                                r = self.call_fn(st, fn, args, call)
                                if trait == "models::It" and meth == "next": self.ck.on_result(self, call, args, r)
                                return r
                if trait == "models::It" and meth == "next":       # an iterator of the program under an adaptor
                    for i in self.impl_index.get(("core::iter::traits::iterator::Iterator", path), []):
                        for it in i["items"]:
                            fn = self.F.fns.get(it)
                            if it.split("::")[-1] == "next" and fn:
                                r = self.ck.intercept(self, st, fn.path, args, call)
                                if r is None:
                                    r = self.call_fn(st, fn, args, call)
                                    self.ck.on_result(self, call, args, r)
                                return r
                fn = self.F.fns.get(trait + "::" + meth)
                if fn is not None and v[0] == "adt": return self.call_fn(st, fn, args, call)
            fn = self.F.fns.get(name)
            if fn is not None and call["rkind"] != "virtual" and call["resolved"]:
                return self.call_fn(st, fn, args, call)
            fn = self.F.fns.get(trait + "::" + meth)
            if fn is not None and not self.overridden(trait, meth):
                return self.call_fn(st, fn, args, call)
        return self.opaque_call(st, name, args, call)

    def overridden(self, trait, meth):
        """does any impl in the workspace override this provided trait method?"""
        for (t, _), impls in self.impl_index.items():
            if t == trait and any(x.split("::")[-1] == meth for i in impls for x in i["items"]): return True
        return False

    def pick_dup(self, name, args, call):
        for f in self.F.dups[name]:
            if f.sig and all(a["s"] == b["s"] or True for a, b in zip(f.sig["in"], call["aty"])):
                pass
        c = [f for f in self.F.dups[name] if f.sig and [strip_ty(x["s"]) for x in f.sig["in"]] == [strip_ty(x["s"]) for x in call["aty"]]]
        return c[0] if c else self.F.dups[name][0]

    def call_fn(self, st, fn, args, call):
        for a, ty in zip(args, call["aty"]):      # types of opaque values, for dispatch inside generic functions
            if a[0] == "s" and ty["k"] == "adt" and not ty.get("args"): self.tyof[a[1]] = ty["def"]
        if any(x is fn for x in self.stack):
            n = sum(1 for x in self.stack if x is fn)
            if fn.crate != "models" or n > 6:
                self.recursive.add(fn.path)
                return self.opaque_call(st, fn.path, args, call)
        return self.run(fn, args, st)

    def havoc(self, st, v, label, seen=None):
        """everything reachable mutably through v may have changed"""
        if v[0] == "ref":
            if label is None: label = "h"
            old = self.load(st, v)
            self.store(st, v, self.fresh(label))
        elif v[0] == "s":
            st.mem[("D", v[1])] = self.fresh(label)
        elif v[0] == "view":
            self.havoc(st, v[1], label)
        elif v[0] == "adt":
            for x in v[3]: self.havoc_refs(st, x, label)

    def havoc_refs(self, st, v, label):
        if v[0] in ("ref",): self.havoc(st, v, label)
        elif v[0] == "adt":
            for x in v[3]: self.havoc_refs(st, x, label)
        elif v[0] == "tup":
            for x in v[1]: self.havoc_refs(st, x, label)

    def opaque_call(self, st, name, args, call, skip=None):
        if not self.quiet: self.opaque[name] = self.opaque.get(name, 0) + 1
        if call["diverges"]:
            self.panic(st, name, call)
            return []
        snaps = tuple(self.snap(st, a) for a in args)
        muts = []
        for i, a in enumerate(args):
            ty = call["aty"][i] if i < len(call["aty"]) else None
            if ty is not None and ty["k"] == "ref" and ty["mut"]: muts.append(i)
            elif a[0] == "clo":
                for j, u in enumerate(a[2]):
                    if u[0] == "ref" and u[1][0] in ("L", "G"):
                        self.havoc(st, u, "cap:" + name)
        if muts:
            res = self.fresh("r:" + name)
            for i in muts:
                self.havoc(st, args[i], "m:" + name)
        else:
            res = self.app(name, *snaps)
        ty = call["dty"]
        if ty["k"] == "tuple" and ty["s"] == "()": res = UNIT
        return [(st, res)]

    def panic(self, st, name, call):
        self.npanics += 1
        if not self.quiet: self.ck.on_panic(self, st, name, call["fn"], call["span"])

    # -------------------------------------------------------------- loops
    def shape(self, v, coarse=False):
        k = v[0]
        if k == "adt":
            fs = tuple(self.shape(x) for x in v[3])
            vs = self.variants(v[1])
            if vs is not None and len(vs) == 1:
                return "_" if all(f == "_" for f in fs) else (v[1], fs)
            return (v[1], v[2], fs)
        if k == "tup":
            fs = tuple(self.shape(x) for x in v[1])
            return "_" if all(f == "_" for f in fs) else fs
        if k == "clo": return (v[1],) + tuple(self.shape(x) for x in v[2])
        if k == "b": return v
        if k in ("ref",): return ("ref", v[1] if v[1][0] != "D" else "D", len(v[2]))
        if k in ("rv",): return ("rv", self.shape(v[1]))
        if k == "fn": return v
        return "_"

    copying = False

    def copyloop(self, fr, h, body, st):
        """a loop that does nothing but push every element of a slice onto a vector appends the slice: the state at its entry becomes the one in front of its last, empty, round"""
        calls = [fr.fn.blocks[b]["t"] for b in body if fr.fn.blocks[b]["t"]["k"] == "call"]
        names = sorted(t["f"][1].get("name", "?") if t["f"][0] == "const" else "?" for t in calls)
        if [n for n in names if n != "clone"] != ["next", "push"]: return
        if sum(fr.fn.blocks[b]["t"]["k"] == "switch" for b in body) != 1 or any(fr.fn.blocks[b]["t"]["k"] not in ("call", "switch", "goto", "drop") for b in body): return
        if any(x[0] == "=" and x[1]["p"] or x[0] == "setdiscr" for b in body for x in fr.fn.blocks[b]["s"]): return
        nt = fr.fn.blocks[h]["t"]
        if nt["k"] != "call" or nt["f"][0] != "const" or nt["f"][1].get("name") != "next": return
        quiet, self.quiet, old = self.quiet, True, self.ck.on_push
        pushed = []
        self.ck.on_push = lambda eng, s, r, item, fn: pushed.append((r, item))
        try:
            s = st.copy()
            for x in fr.fn.blocks[h]["s"]:
                if x[0] == "=": s.mem[("L", fr.fid, x[1]["l"])] = self.rvalue(s, fr, x[2])
            it = self.deref(self.operand(s, fr, nt["a"][0]))
            v, wrap = self.load(s, it), []
            while v[0] == "adt" and len(v[3]) == 1: wrap.append(v); v = v[3][0]
            if v[0] != "adt" or v[1].split("::")[-1] not in ("SliceIter", "VecIter") or len(v[3]) != 2 or v[3][1] != const(0) or it[0] != "ref": return
            todo, seen = [(h, st.copy())], 0
            while todo:
                b, s = todo.pop()
                for o in self.block(fr, b, s):
                    if o[0] != "goto": continue
                    if o[1] == h: seen += 1
                    elif o[1] in body: todo.append((o[1], o[2]))
            if seen != 1 or len(pushed) != 1: return
            dst, item = pushed[0]
            if item[0] in ("ref", "rv"): item = self.load(st, item)
            xs = self.load(st, v[3][0])
            if self.snap(st, item) != self.snap(st, self.index(st, xs, const(0))): return
        finally:
            self.quiet = quiet
            del self.ck.on_push
        self.store(st, dst, ("seq", self.seq(self.load(st, dst)) + self.seq(xs)))
        v = ("adt", v[1], v[2], (v[3][0], num(self.seqlen(xs))))
        for w in reversed(wrap): v = w[:3] + ((v,),)
        self.store(st, it, v)

    def do_loop(self, fr, h, entries):
        self.inst += 1
        inst = self.inst
        tick0 = self.T.tick
        body = fr.loops[h]
        for s in entries: self.prune(fr, h, s)
        if self.unroll:
            r = self.unrolled(fr, h, entries, body)
            if r is not None: return r
        if self.copying:
            for s in entries: self.copyloop(fr, h, body, s)
        coarse = False
        keys = {}     # shape -> index
        H = {}        # key -> St
        rows = {}     # key -> list of rows (dict leaf -> Fraction)
        cands = {}    # key -> set of candidate facts or None
        phis = set()

        def keyof(s):
            if coarse: return 0
            k = tuple(sorted(((c, self.shape(v)) for c, v in s.mem.items()), key=repr))
            return keys.setdefault(k, len(keys))
        groups = {}
        for s in entries: groups.setdefault(keyof(s), []).append(s)
        ent = groups
        backs = {}
        rnd = 0
        attr0 = None
        while True:
            rnd += 1
            if rnd > 14: raise TooComplex("loop in %s (bb%d) does not stabilise" % (fr.fn.path, h))
            if len(keys) > self.max_shapes:
                if self.debug:
                    for cell in sorted(set(c for k in keys for c, _ in k), key=repr):
                        vs = set(dict(k).get(cell) for k in keys)
                        if len(vs) > 1: print(cell, len(vs), [str(v)[:200] for v in list(vs)[:6]])
                raise TooComplex("too many shapes at loop in %s" % fr.fn.path)
            if self.debug == 2 and rnd == 5 and len(keys) > 1:
                print("SHAPES", fr.fn.path, h, len(keys))
                for cell in sorted(set(c for k in keys for c, _ in k), key=repr):
                    vs = set(dict(k).get(cell) for k in keys)
                    if len(vs) > 1: print("  ", cell, fr.fn.locals[cell[2]] if cell[0] == "L" and cell[1] == fr.fid else "", len(vs), [str(v)[:200] for v in list(vs)[:6]])
            newH = {}
            for k in set(ent) | set(backs):
                newH[k] = self.generalise(inst, k, ent.get(k, []), backs.get(k, []), H, rows.setdefault(k, []), cands, tick0, phis, rnd)
            stable = set(newH) == set(H) and all(newH[k][0].sig() == H[k][0].sig() and newH[k][2] == H[k][2] for k in H)
            for k in newH:
                for (m, ck), e in newH[k][2].items():
                    d = self.chunk_len if m == "#len" else self.chunk_meas
                    kk = ck if m == "#len" else (m, ck)
                    if e is None: d.pop(kk, None)
                    else: d[kk] = e
            H = newH
            if stable: break
            self.quiet += 1
            try:
                backs = {}
                for k in sorted(H):
                    for o in self.explore(fr, [(h, H[k][0].copy())], head=h, body=body):
                        if o[0] == "back":
                            self.prune(fr, h, o[2])
                            backs.setdefault(keyof(o[2]), []).append((k, o[2]))
            finally:
                self.quiet -= 1
        outs = []
        leaves, steps, panics = set(), {}, self.npanics
        for k in sorted(H):
            s = H[k][0].copy()
            self.enter_loop(fr, h, k, s)
            n = len(outs)
            for o in self.explore(fr, [(h, s)], head=h, body=body):
                if o[0] == "back":
                    if not self.quiet: self.back_edge(fr, h, k, o[2])
                    self.prune(fr, h, o[2])
                    steps.setdefault(k, set()).add(keyof(o[2]))
                    continue
                outs.append(o)
            if len(outs) > n: leaves.add(k)
        if not self.quiet and self.npanics == panics:
            ch = True
            while ch:
                ch = False
                for k in H:
                    if k not in leaves and steps.get(k, set()) & leaves: leaves.add(k); ch = True
            for k in ent:
                if k in H and k not in leaves and steps.get(k): self.stuck.setdefault(fr.fn.path, set()).add(h)
        return outs

    def concrete(self, st, v, depth=0):
        """1 + number of items if v is an iterator over a list that is written out, 0 if not"""
        for _ in range(3):
            if v[0] in ("ref", "rv") and depth < 4: v = self.load(st, v)
        if v[0] == "adt" and v[1] in ("models::VecIter", "models::SliceIter", "models::RevVec", "models::RevSlice"):
            x = v[3][0]
            for _ in range(4):
                if x[0] in ("ref", "rv"): x = self.load(st, x)
            if x[0] in ("seq", "arr"):
                ch = self.seq(x)
                if all(c[0] == "it" for c in ch): return 1 + len(ch)
            return 0
        if v[0] == "adt" and v[1].startswith("models::") and depth < 4: return max([self.concrete(st, x, depth + 1) for x in v[3]] or [0])
        return 0

    def unrolled(self, fr, h, entries, body):
        n = 0
        for s in entries:
            for c, v in s.mem.items():
                if c[0] == "L" and c[1] == fr.fid: n = max(n, self.concrete(s, v))
        if not n or n > 40: return None
        mark = self.npanics
        self.quiet += 1
        try:
            cur, k = [e.copy() for e in entries], 0
            while cur and k <= n:
                cur = [o[2] for o in self.explore(fr, [(h, x) for x in cur], head=h, body=body) if o[0] == "back"]
                for s in cur: self.prune(fr, h, s)
                cur = self.dedupe([(s, UNIT) for s in cur]) if len(cur) > 1 else [(s, UNIT) for s in cur]
                cur = [s for s, _ in cur]
                k += 1
        finally:
            self.quiet -= 1
        if cur: return None
        outs, cur = [], list(entries)
        while cur:
            nxt = []
            for o in self.explore(fr, [(h, x) for x in cur], head=h, body=body):
                if o[0] == "back":
                    self.prune(fr, h, o[2]); nxt.append(o[2])
                else: outs.append(o)
            cur = [s for s, _ in self.dedupe([(s, UNIT) for s in nxt])] if len(nxt) > 1 else nxt
        return outs

    def solved(self, st):
        """(state, substitution): loop variables that the state makes equal to an expression are rewritten"""
        sub = {}
        done = set()
        eqs = []
        for q in st.facts:
            if not q[0] or q in done or L.neg(q) not in st.facts: continue
            done |= {q, L.neg(q)}
            eqs.append(min(q, L.neg(q)))
        for q in st.facts:
            if q[1] == 0 and q[0] and all(c < 0 for _, c in q[0]):          # unsigned values that add up to nothing
                for i, _ in q[0]: sub[i] = const(0)
        for q in sorted(eqs):
            q = self.subst_aff(q, sub)
            best = None
            for i, c in q[0]:
                if abs(c) == 1 and self.T.structs[i][0] == "phi" and (best is None or self.T.birth[i] > self.T.birth[best[0]]): best = (i, c)
            if best is None: continue
            i, c = best
            e = num(L.scale((tuple((j, d) for j, d in q[0] if j != i), q[1]), -c))          # i = -c * rest  (c = +-1)
            if any(i in self.T.atoms[j] for j in ids_in(e)): continue
            sub = {k: self.subst_val(v, {i: e}) for k, v in sub.items()}
            sub[i] = e
        if not sub: return st, sub
        r = st.copy()
        r.mem = {k: self.subst_val(v, sub) for k, v in st.mem.items()}
        for d in (r.vars, r.bools):
            for k in list(d):
                if isinstance(k, int) and self.T.atoms[k] & set(sub):
                    x = self.subst_id(k, sub)
                    if x[0] == "s": d.setdefault(x[1], d[k])
        return r, sub

    def enter_loop(self, fr, h, k, s): pass
    def back_edge(self, fr, h, k, s): pass

    def stale(self, v, tick0, phis):
        for i in ids_in(v):
            for a in self.T.atoms[i]:
                if self.T.birth[a] > tick0 and a not in phis: return True
        return False

    def generalise(self, inst, key, ents, backs, H, rows, cands, tick0, phis, rnd):
        """join the incoming states of one shape; returns (state, leaf values)"""
        # incoming: (state, H-key or None)
        inc, subs = [], []
        for s, k in [(s, None) for s in ents] + [(s, k) for k, s in backs]:
            s, m = self.solved(s)
            inc.append((s, k)); subs.append(m)
        if not inc: raise CheckError("internal: empty group")
        cells = set(inc[0][0].mem)
        for s, _ in inc[1:]: cells &= set(s.mem)
        # cells that exist only by default in some incoming state
        alls = set()
        for s, _ in inc: alls |= set(s.mem)
        for c in alls - cells:
            if c[0] == "D": cells.add(c)
        nums = {}     # leaf -> tuple of values
        ops = {}      # leaf -> tuple of values (opaque)
        T = self.T

        def walk(path, vals):
            v0 = vals[0]
            if all(v == v0 for v in vals):
                if not self.stale(v0, tick0, phis): return v0
            kinds = {v[0] for v in vals}
            if kinds == {"s", "adt"} or kinds == {"s", "tup"}:
                w = next(v for v in vals if v[0] != "s")
                if w[0] == "adt":
                    a = self.adt_info(w[1])
                    if a and len(a["variants"]) == 1:
                        vals = [v if v[0] == "adt" else ("adt", w[1], 0, tuple(self.fld(v, j, f["name"], "", w[1]) for j, f in enumerate(a["variants"][0]["fields"]))) for v in vals]
                else:
                    vals = [v if v[0] == "tup" else ("tup", tuple(self.fld(v, j, str(j)) for j in range(len(w[1])))) for v in vals]
                v0 = vals[0]
            k = v0[0]
            if all(v[0] == k for v in vals):
                if k == "adt" and all(v[1:3] == v0[1:3] and len(v[3]) == len(v0[3]) for v in vals):
                    return ("adt", v0[1], v0[2], tuple(walk(path + (j,), [v[3][j] for v in vals]) for j in range(len(v0[3]))))
                if k == "tup" and all(len(v[1]) == len(v0[1]) for v in vals):
                    return ("tup", tuple(walk(path + (j,), [v[1][j] for v in vals]) for j in range(len(v0[1]))))
                if k == "clo" and all(v[1] == v0[1] for v in vals):
                    return ("clo", v0[1], tuple(walk(path + (j,), [v[2][j] for v in vals]) for j in range(len(v0[2]))))
                if k == "rv":
                    return ("rv", walk(path + ("*",), [v[1] for v in vals]))
                if k == "view":
                    return ("view", walk(path + ("b",), [v[1] for v in vals]), walk(path + ("o",), [v[2] for v in vals]), walk(path + ("n",), [v[3] for v in vals]))
                if k == "ref" and all(v[1] == v0[1] and len(v[2]) == len(v0[2]) for v in vals) and not self.stale(v0[1], tick0, phis):
                    pr = []
                    ok = True
                    for j in range(len(v0[2])):
                        es = [v[2][j] for v in vals]
                        if all(e == es[0] for e in es) and not self.stale(es[0], tick0, phis): pr.append(es[0])
                        elif all(e[0] == "x" for e in es): pr.append(("x", walk(path + ("x", j), [e[1] for e in es])))
                        else: ok = False
                    if ok: return ("ref", v0[1], tuple(pr))
            if self.ck.antiunify and k == "s" and all(v[0] == "s" for v in vals):
                xs = [T.structs[v[1]] for v in vals]
                x0 = xs[0]
                if x0[0] in ("elem", "app") and len(path) < 24 and all(x[0] == x0[0] and len(x) == len(x0) for x in xs) and (x0[0] == "elem" or all(x[1] == x0[1] for x in xs)):
                    lo = 1 if x0[0] == "elem" else 2
                    if all(isinstance(y, tuple) and y and y[0] in ("s", "i", "c") for x in xs for y in x[lo:]):
                        return ("au", x0[:lo], tuple(walk(path + ("t", j), [x[j] for x in xs]) for j in range(lo, len(x0))))
            if all(v[0] in ("seq",) or (v[0] == "s") for v in vals) and any(v[0] == "seq" for v in vals):
                return self.join_seq(inst, key, path, vals, tick0, phis, nums, subs)
            if all(is_num(v) for v in vals) and (any(v[0] == "i" for v in vals) or True):
                nums[path] = tuple(vals)
                return ("leaf", path)
            ops[path] = tuple(vals)
            return ("leaf", path)

        def phi(path):
            i = T.intern(("phi", inst, key, path))
            phis.add(i)
            return ("s", i)
        mem = {}
        for c in sorted(cells, key=repr):
            mem[c] = walk((c,), [self.getcell(s, c) for s, _ in inc])
        # ---- numeric leaves: affine relations (Karr)
        val = {}
        leaves = sorted(nums, key=repr)
        affs = {l: [aff(v) for v in nums[l]] for l in leaves}
        hval = {}
        for l in leaves:
            hv = {}
            for n, (s, k) in enumerate(inc):
                if k == key and key in H: hv[n] = H[key][1].get(l)
            hval[l] = hv
        # H leaf values: evaluate the leaf path in the old head state
        oldmem = H[key][0].mem if key in H else None

        def oldleaf(l):
            if oldmem is None: return None
            if self.pseudo(l):
                v = self.at_path(oldmem, l[:-1])
                return None if v is None else self.measure(l[-1], v)
            v = self.at_path(oldmem, l)
            return None if v is None else aff(v)
        virt = {}
        # virtual leaves P(T, leaf + k)
        for l in leaves:
            for a in affs[l]:
                for i, _ in a[0]:
                    stt = T.structs[i]
                    if stt[0] == "P":
                        for l2 in leaves:
                            for a2 in affs[l2]:
                                d = L.add(aff(stt[2]), a2, -1)
                                if not d[0]:
                                    virt[("P", stt[1], l2, d[1])] = l2
        if len(virt) > 24: virt = dict(list(sorted(virt.items(), key=repr))[:24])

        def vval(v, a):  # value of virtual leaf v given underlying leaf value
            return (((T.intern(("P", v[1], num(L.shift(a, v[3])))), 1),), 0)
        cols = [l for l in leaves if not self.pseudo(l)]
        # index-like leaves first
        under = set(virt.values())
        order = [l for l in cols if l in under] + sorted(virt, key=repr) + [l for l in cols if l not in under] + [l for l in leaves if self.pseudo(l)]
        pos = {l: n for n, l in enumerate(order)}

        def vec(n):
            d = {}
            for l in leaves: d[l] = affs[l][n]
            for v, l in virt.items(): d[v] = vval(v, affs[l][n])
            return d

        def hvec():
            d = {}
            for l in leaves:
                a = oldleaf(l)
                if a is None: return None
                d[l] = a
            for v, l in virt.items(): d[v] = vval(v, d[l])
            return d
        ref = None
        for n, (s, k) in enumerate(inc):
            if k != key: ref = n; break
        newrows = []
        hv = hvec()

        def addrows(d):  # d: leaf -> aff difference must vanish formally
            syms = set()
            for a in d.values():
                syms.update(i for i, _ in a[0]); syms.add(None)
            for sy in syms:
                row = {}
                for l, a in d.items():
                    c = a[1] if sy is None else dict(a[0]).get(sy, 0)
                    if c: row[l] = Fraction(c)
                if row: newrows.append(row)
        if ref is None: ref = 0
        rv = vec(ref)
        stal = {}
        for l, a in rv.items():
            for i, c in a[0]:
                if self.stale(("s", i), tick0, set()): stal.setdefault(i, {})[l] = Fraction(c)
        newrows.extend(stal.values())
        for n, (s, k) in enumerate(inc):
            if n == ref: continue
            v = vec(n)
            if k == key and hv is not None: addrows({l: L.add(v[l], self.subst_aff(hv[l], subs[n]) if subs[n] else hv[l], -1) for l in v})
            else: addrows({l: L.add(v[l], rv[l], -1) for l in v})
        rows.extend(newrows)
        # RREF
        M = []
        piv = []
        for row in rows:
            r = {l: c for l, c in row.items() if l in pos}
            for p, pr in M:
                if p in r:
                    c = r[p]
                    for l, x in pr.items():
                        r[l] = r.get(l, 0) - c * x
                        if not r[l]: del r[l]
            if not r: continue
            p = min(r, key=lambda l: pos[l])
            c = r[p]
            r = {l: x / c for l, x in r.items()}
            for q, pr in M:
                if p in pr:
                    cc = pr[p]
                    for l, x in r.items():
                        pr[l] = pr.get(l, 0) - cc * x
                        if not pr[l]: del pr[l]
            M.append((p, r))
        # RREF with leftmost pivots: re-reduce so that each pivot is leftmost in its row (it is, by min)
        pivs = {p for p, _ in M}
        rank = {}
        extra_facts = set()
        indep = {}
        for l in order:
            if l in pivs:
                if l in virt: continue
                if self.pseudo(l): continue
                indep[l] = aff(phi(l))
        resolved = dict(indep)
        for l in order:
            if l in resolved or l in virt: continue
            if l in pivs: continue
            # free column: leaf l = const + sum R[p][l] * leaf_p
            coefs = {p: r[l] for p, r in M if l in r}
            ok = all(c.denominator == 1 for c in coefs.values())
            e = None
            if ok:
                e = rv[l]
                for p, c in coefs.items(): e = L.add(e, rv[p], -int(c))
                if any(self.stale(("s", i), tick0, set()) for i, _ in e[0]): ok = False
            if ok:
                for p, c in coefs.items():
                    if p in virt:
                        u = virt[p]
                        if u not in resolved: ok = False; break
                        pv = vval(p, resolved[u])
                    elif p in resolved: pv = resolved[p]
                    else: ok = False; break
                    e = L.add(e, pv, int(c))
            if self.pseudo(l):
                if ok: extra_facts.add((l, e))
                continue
            resolved[l] = e if ok else aff(phi(l))
        for l in cols:
            if l not in resolved: resolved[l] = aff(phi(l))
            val[l] = num(resolved[l])
        groups = {}
        for l in sorted(ops, key=repr):
            g = ops[l]
            if g not in groups: groups[g] = phi(l)
            val[l] = groups[g]

        def subst(v):
            if not isinstance(v, tuple): return v
            if len(v) == 2 and v[0] == "leaf": return val[v[1]]
            if len(v) == 3 and v[0] == "au": return ("s", T.intern(v[1] + tuple(subst(x) for x in v[2])))
            return tuple(subst(x) for x in v)
        st = St()
        st.mem = {c: subst(v) for c, v in mem.items()}
        # ---- facts
        sub = []  # per incoming: phi id -> value
        phileaf = {}
        for l, v in val.items():
            if v[0] == "s" and v[1] in phis: phileaf[v[1]] = l
        for n in range(len(inc)):
            m = {}
            for i, l in phileaf.items():
                m[i] = (nums.get(l) or ops.get(l))[n]
            sub.append(m)
        seqs = []
        for l in leaves:
            if l[-1] != "#len": continue
            v = self.at_path(st.mem, l[:-1])
            if v is None or v[0] != "seq" or v[1][-1][0] != "ck" or v[1][-1][1] not in phis: continue
            ls = T.intern(("len", ("T", v[1][-1][1])))
            pre = self.seqlen(("seq", v[1][:-1]))
            seqs.append((l, L.add(pre, (((ls, 1),), 0)), pre))
            for n in range(len(inc)):
                sub[n][ls] = num(L.add(aff(nums[l][n]), self.subst_aff(pre, sub[n]), -1))

        def allowed(ids):
            return not any(self.stale(("s", i), tick0, phis) for i in ids)
        new = set()
        if key not in cands or rnd <= 4:
            for n, (s, k) in enumerate(inc):
                inv = {}
                seen_e = set()
                for l in nums:
                    if l not in val or not is_num(val[l]): continue
                    a = affs[l][n]
                    if len(a[0]) == 1 and a[0][0][1] == 1:
                        e = aff(val[l])
                        if not any(x in phileaf for x, _ in e[0]): continue
                        if (a, e) in seen_e: continue
                        seen_e.add((a, e))
                        inv.setdefault(a[0][0][0], []).append((e, a[1]))
                for f in s.facts:
                    opts = [f]
                    for sy, _ in f[0]:
                        if sy in inv:
                            nopts = []
                            for o in opts:
                                c = dict(o[0]).get(sy)
                                if c is None: nopts.append(o); continue
                                for pi, kk in inv[sy][:6]:
                                    # sy = phi - kk
                                    base = L.add(o, (((sy, 1),), 0), -c)
                                    nopts.append(L.shift(L.add(base, pi, c), -c * kk))
                                nopts.append(o)
                            opts = nopts[:24]
                    for o in opts:
                        if o[0] and allowed([i for i, _ in o[0]]): new.add(L.norm(o))
            nl = [i for i, l in phileaf.items() if l in nums]
            for i in nl:
                l = phileaf[i]
                for n, (s, k) in enumerate(inc):
                    if k != key and not self.stale(nums[l][n], tick0, set()):
                        e = affs[l][n]
                        new.add(L.norm(L.add((((i, 1),), 0), e, -1)))
                        new.add(L.norm(L.add(e, (((i, 1),), 0), -1)))
            if len(nl) <= 10:
                for i in nl:
                    for j in nl:
                        if i != j: new.add(L.norm(L.add((((i, 1),), 0), (((j, 1),), 0), -1)))
            if rnd <= 2 and len(nl) <= 14:
                ys = {}
                for s, _ in inc:
                    for y in {i for f in s.facts for i, _ in f[0]}: ys[y] = ys.get(y, 0) + 1
                ys = {y: c for y, c in ys.items() if c == len(inc) and T.structs[y][0] in ("#", "phi") and not self.stale(("s", y), tick0, set())}
                for y in sorted(ys)[:10]:
                    for i in nl:
                        d = L.add((((i, 1),), 0), (((y, 1),), 0), -1)
                        new.add(L.norm(d)); new.add(L.norm(L.neg(d)))
            for l, tot, pre in seqs[:4]:
                new.add(L.norm(L.shift(L.add(tot, pre, -1), -1)))
                for i in nl[:14]:
                    x = (((i, 1),), 0)
                    new.add(L.norm(L.add(tot, x, -1)))
                    new.add(L.norm(L.shift(L.add(tot, x, -1), -1)))
                    new.add(L.norm(L.add(x, pre, -1)))
            new = {f for f in new if f[0]}
            if key in cands and rnd > 2: new = {f for f in new if f in cands[key] or rnd <= 4}
            cur = (cands.get(key) or set()) | new if key not in cands or rnd <= 4 else cands[key]
        else:
            cur = cands[key]
        cur = set(cur) | {L.norm(f) for f in self.ck.invariants(self, st) if f[0]}
        keep = set()
        dead = cands.setdefault(("dead", key), set())
        for f in cur:
            if f in dead: continue
            ok = True
            for n, (s, k) in enumerate(inc):
                if not self.holds(s, self.subst_aff(f, sub[n])): ok = False; break
            if ok: keep.add(f)
            elif rnd > 2: dead.add(f)
        cands[key] = keep
        fs = set(f for f in keep)
        defs = {}
        for l in leaves:
            if not self.pseudo(l): continue
            v = self.at_path(st.mem, l[:-1])
            if v is None: continue
            ck = v[1][-1][1]
            e = next((x for l2, x in extra_facts if l2 == l), None)
            if e is None:
                defs[(l[-1], ck)] = None
                continue
            pre = self.measure(l[-1], ("seq", v[1][:-1]))
            defs[(l[-1], ck)] = None if pre is None else L.add(e, pre, -1)
        # drop facts implied trivially, keep the strongest of parallel ones
        best = {}
        for f in fs:
            if f[1] >= 0 and all(c > 0 for _, c in f[0]): continue
            if f[0] not in best or f[1] < best[f[0]]: best[f[0]] = f[1]
        st.facts = frozenset(best.items())
        # ---- boolean / variant knowledge
        b0 = inc[0][0]
        for i, b in b0.bools.items():
            if allowed([i]) and all(s.bools.get(i) == b for s, _ in inc) and not (self.T.atoms[i] & set(phileaf)):
                st.bools[i] = b
        for i, b in b0.vars.items():
            if allowed([i]) and all(s.vars.get(i) == b for s, _ in inc) and not (self.T.atoms[i] & set(phileaf)):
                st.vars[i] = b
        for i, l in phileaf.items():
            vs = (nums.get(l) or ops.get(l))
            kv = set()
            for n, (s, _) in enumerate(inc):
                x = vs[n]
                kv.add(self.var_of(s, x))
            if len(kv) == 1 and None not in kv: st.vars[i] = kv.pop()
            kb = set()
            for n, (s, _) in enumerate(inc):
                x = vs[n]
                kb.add(s.bools.get(x[1]) if x[0] == "s" else (x[1] if x[0] == "b" else None))
            if len(kb) == 1 and None not in kb: st.bools[i] = kb.pop()
        st.neq = frozenset(d for d in b0.neq if allowed([i for i, _ in d[0]]) and all(d in s.neq for s, _ in inc) and not any(self.T.atoms[i] & set(phileaf) for i, _ in d[0]))
        # ---- trace
        tr = inc[0][0].trace
        for s, _ in inc[1:]:
            n = 0
            while n < len(tr) and n < len(s.trace) and tr[n] == s.trace[n]: n += 1
            tr = tr[:n]
        if any(len(s.trace) != len(tr) for s, _ in inc):
            mk = ("loop", inst, key)
            tr = tr + (mk,) if not (tr and tr[-1] == mk) else tr
        st.trace = tr
        return (st, val, defs)

    def pseudo(self, l): return isinstance(l[-1], str) and l[-1][0] == "#"

    def subst_aff(self, f, m):
        r = ((), f[1])
        for i, c in f[0]:
            v = self.subst_id(i, m)
            a = aff(v)
            if a is None: a = (((self.T.intern(("v", v)), 1),), 0)
            r = L.add(r, L.scale(a, c))
        return r

    def subst_id(self, i, m):
        if i in m: return m[i]
        if not (self.T.atoms[i] & set(m)): return ("s", i)
        st = self.T.structs[i]
        r = self.subst_val(st, m)
        if r[0] == "P": return ("s", self.T.intern(r))
        return ("s", self.T.intern(r))

    def subst_val(self, v, m):
        if not isinstance(v, tuple) or not v: return v
        k = v[0]
        if k == "s": return self.subst_id(v[1], m)
        if k == "i":
            return num(self.subst_aff((v[1], v[2]), m))
        if k == "T":
            x = self.subst_id(v[1], m)
            return ("T", x[1]) if x[0] == "s" else ("V", x)
        if k == "ck":
            x = self.subst_id(v[1], m)
            return ("ck", x[1]) if x[0] == "s" else ("ck", self.T.intern(("v", x)))
        return tuple(self.subst_val(x, m) for x in v)

    def at_path(self, mem, path):
        v = mem.get(path[0])
        n = 1
        while v is not None and n < len(path):
            p = path[n]
            if v[0] == "adt" and isinstance(p, int): v = v[3][p] if p < len(v[3]) else None
            elif v[0] == "tup" and isinstance(p, int): v = v[1][p]
            elif v[0] == "clo" and isinstance(p, int): v = v[2][p]
            elif p == "*" and v[0] == "rv": v = v[1]
            elif v[0] == "view" and p in ("b", "o", "n"): v = {"b": v[1], "o": v[2], "n": v[3]}[p]
            elif p == "t" and v[0] == "s":
                x = self.T.structs[v[1]]
                if path[n + 1] >= len(x): return None
                v = x[path[n + 1]]; n += 1
            elif p == "x" and v[0] == "ref":
                v = v[2][path[n + 1]][1]; n += 1
            else: return None
            n += 1
        return v

    def join_seq(self, inst, key, path, vals, tick0, phis, nums, subs):
        T = self.T
        chs = [self.seq(v) for v in vals]
        i = T.intern(("phi", inst, key, path + ("ck",)))
        n = 0
        m = min(len(c) for c in chs)
        while n < m and all(c[n] == chs[0][n] for c in chs) and not self.stale(chs[0][n], tick0, phis) and chs[0][n] != ("ck", i): n += 1
        extras = [c[n:] for c in chs]
        phis.add(i)
        self.chunk_attr[i] = self.ck.summarise(self, extras, i)
        sb = lambda a, m: num(self.subst_aff(a, m) if m else a)
        nums[path + ("#len",)] = tuple(sb(self.seqlen(("seq", c)), m) for c, m in zip(chs, subs))
        for m in self.measures:
            vs = [self.measure(m, ("seq", c)) for c in chs]
            if all(v is not None for v in vs): nums[path + (m,)] = tuple(sb(v, x) for v, x in zip(vs, subs))
        return ("seq", chs[0][:n] + (("ck", i),))
