"""Semantics of the standard-library calls met in the workspace: either a Python transfer
function or a redirect to a model in models/models.rs."""
import linear as L
from absint import (OPTION, RESULT, ORDERING, UNIT, TRUE, FALSE, NONE, some, const, aff, num, is_num, strip_ty)

M = "models::"
ITER = "core::iter::traits::iterator::Iterator"
ORD = lambda i: ("adt", ORDERING, i, ())


def madt(name, *fields):
    return ("adt", M + name, 0, tuple(fields))


def tail(name):
    return name.split("::")[-1]


def val(eng, st, v):
    """value behind references"""
    n = 0
    while v[0] in ("ref", "rv") and n < 6:
        v = eng.load(st, v)
        n += 1
    if v[0] == "s" and ("D", v[1]) in st.mem: return st.mem[("D", v[1])]
    return v


def runm(eng, st, name, args):
    fn = eng.M.fns[M + name]
    return eng.run(fn, args, st)


def mref(eng, st, v):
    """make a reference to a temporary holding v"""
    eng.fid += 1
    c = ("L", 0, eng.fid)
    st.mem[c] = v
    return ("ref", c, ())


def as_seq_ref(eng, st, v):
    """reference-like value -> canonical reference to the sequence (Vec, slice or array)"""
    n = 0
    while n < 5:
        n += 1
        if v[0] in ("ref", "rv"):
            t = eng.load(st, v)
            if t[0] in ("ref", "rv", "view"):
                v = t
                continue
        break
    return eng.deref(v)


def view(eng, st, base, off, ln):
    base = as_seq_ref(eng, st, base)
    if base[0] == "view":
        return ("view", base[1], num(L.add(aff(base[2]), off)), num(ln))
    return ("view", base, num(off), num(ln))


def seq_elem_ref(eng, st, base, idx):
    base = as_seq_ref(eng, st, base)
    return eng.pref(st, base, ("x", idx))


def to_iter(eng, st, v, call):
    k = v[0]
    if k == "adt":
        p = v[1]
        if p.startswith(M): return v
        t = tail(p)
        if p.startswith("core::ops::range"):
            if t == "Range": return madt("RangeIter", v[3][0], v[3][1])
            if t == "RangeInclusive": return madt("RangeIncl", v[3][0], v[3][1], FALSE)
            if t == "RangeFrom": return madt("RangeFromIter", v[3][0])
        if p == OPTION: return madt("OptIter", v)
        return v  # user iterators
    if k in ("ref", "rv", "view"):
        t = eng.load(st, v)
        if k == "view" or t[0] in ("seq", "arr", "slice", "upd"): return madt("SliceIter", v, const(0))
        if t[0] in ("ref", "rv", "view"):
            return to_iter(eng, st, t, call)
        if t[0] == "adt" and t[1] == OPTION:
            return madt("OptIter", NONE if t[2] == 0 else some(mref_of(eng, st, v)))
        if t[0] == "adt": return madt("ByRef", v)
        return madt("SliceIter", v, const(0))
    if k in ("seq", "arr"):
        return madt("VecIter", ("rv", v), const(0))
    return None


def mref_of(eng, st, v):
    return eng.pref(st, eng.deref(v), ("f", 0, "0", "Some", OPTION))


def user_iter(eng, v):
    return v[0] == "adt" and (v[1] in eng.F.adts)


ITER_WRAP = {"map": "Map", "filter": "Filter", "filter_map": "FilterMap", "take_while": "TakeWhile", "skip_while": "SkipWhile",
             "skip": "Skip", "take": "Take", "enumerate": "Enumerate", "zip": "Zip", "chain": "Chain", "cloned": "Cloned", "copied": "Cloned",
             "peekable": "Peekable", "flat_map": "FlatMap"}
CONSUME = {"find": ("it_find", True), "find_map": ("it_find_map", True), "position": ("it_position", True), "any": ("it_any", True), "all": ("it_all", True),
           "count": ("it_count", False), "nth": ("it_nth", True), "last": ("it_last", False), "for_each": ("it_for_each", False), "fold": ("it_fold", False)}
OPT = {"is_some", "is_none", "map", "map_or", "map_or_else", "and_then", "or_else", "or", "and", "filter", "unwrap_or", "unwrap_or_else", "unwrap",
       "expect", "ok_or", "ok_or_else", "as_ref", "as_mut", "take", "replace", "is_some_and"}
RES = {"ok": "result_ok", "is_ok": "result_is_ok", "unwrap": "result_unwrap", "expect": "result_unwrap2", "map_err": "result_map_err", "unwrap_or": "result_unwrap_or"}
IDENT = {"core::iter::adapters"}


def call(eng, st, call, args):
    name, meth, trait = call["name"], call["method"], call["trait"] or ""
    path = name.lstrip("<")
    a0 = args[0] if args else None
    fam = trait.split("::")[-1]

    # ---- formatting, panics
    if name.startswith("core::panicking") or name.startswith("std::panicking") or name in ("core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed", "core::panicking::panic_fmt"):
        eng.panic(st, name, call)
        return []
    # ---- vec![..]
    if name == "alloc::boxed::Box::new_uninit":
        p = eng.fresh("box")
        st.mem[("D", p[1])] = eng.fresh("uninit")
        return [(st, ("adt", "alloc::boxed::Box", 0, (p,)))]
    if name == "alloc::boxed::box_assume_init_into_vec_unsafe":
        v = a0
        if v[0] == "adt": v = v[3][0]
        if v[0] == "s": v = st.mem.get(("D", v[1]), v)
        while v[0] == "w" and len(v[2]) == 1: v = v[2][0][1]
        while v[0] == "adt" and len(v[3]) == 1: v = v[3][0]
        if v[0] in ("arr", "seq"): return [(st, ("seq", tuple(eng.seq(v))))]
        return None
    if name == "core::iter::sources::once::once": return [(st, madt("OptIter", some(a0)))]
    if name == "core::iter::sources::empty::empty": return [(st, madt("OptIter", NONE))]
    # ---- identity-like
    if meth in ("into_iter",) and fam == "IntoIterator" or (meth in ("iter", "iter_mut") and path.startswith(("core::slice", "alloc::vec", "core::array"))) or name == "core::slice::iter::into_iter":
        if meth != "into_iter":
            return [(st, madt("SliceIter", as_seq_ref(eng, st, a0), const(0)))]
        if a0[0] == "adt" and user_iter(eng, a0):
            for i in eng.impl_index.get(("core::iter::traits::collect::IntoIterator", a0[1]), []):
                return None
            return [(st, a0)]
        r = to_iter(eng, st, a0, call)
        if r is not None: return [(st, r)]
        ty = call["aty"][0] if call["aty"] else {"k": "other", "s": ""}
        if a0[0] == "s":
            s = ty["s"]
            if ty["k"] == "ref":
                inner = ty["to"]
                if inner["k"] in ("slice", "array") or inner["s"].startswith("alloc::vec::Vec"):
                    return [(st, madt("SliceIter", a0, const(0)))]
            if s.startswith("alloc::vec::Vec"): return [(st, madt("VecIter", ("rv", a0), const(0)))]
            if s.startswith("core::option::Option"): return [(st, madt("OptIter", a0))]
            return [(st, a0)]
        return None
    if meth == "rev" and fam == "Iterator":
        r = to_iter(eng, st, a0, call)
        if r and r[0] == "adt" and r[1] in (M + "SliceIter", M + "VecIter"):
            return [(st, madt("RevSlice" if r[1] == M + "SliceIter" else "RevVec", r[3][0], num(L.add(eng.reflen(st, as_seq_ref(eng, st, r[3][0])), ((), 0)))))]
        if r and r[0] == "adt" and r[1] == M + "RangeIter":
            return [(st, madt("RevRange", r[3][0], r[3][1]))]
        return [(st, eng.app("rev", eng.snap(st, a0)))]
    if fam == "Iterator" and meth in ITER_WRAP:
        it = a0
        if it[0] in ("ref", "rv"): it = madt("ByRef", it)
        if meth in ("cloned", "copied"): return [(st, madt("Cloned", it))]
        if meth in ("skip_while", "take_while"): return [(st, madt(ITER_WRAP[meth], it, args[1], FALSE))]
        if meth == "enumerate": return [(st, madt("Enumerate", it, const(0)))]
        if meth == "peekable": return [(st, madt("Peekable", it, NONE))]
        if meth == "flat_map": return [(st, madt("FlatMap", it, args[1], NONE))]
        if meth in ("zip", "chain"):
            b = to_iter(eng, st, args[1], call)
            if b is None: b = args[1]
            return [(st, madt(ITER_WRAP[meth], it, b) if meth == "zip" else madt("Chain", it, b, FALSE))]
        return [(st, madt(ITER_WRAP[meth], it, args[1]))]
    if fam == "Iterator" and meth == "by_ref": return [(st, madt("ByRef", a0))]
    if fam == "Iterator" and meth in CONSUME:
        fn, byref = CONSUME[meth]
        it = a0
        if not byref and it[0] in ("ref", "rv"): it = madt("ByRef", it)
        if byref and it[0] not in ("ref", "rv", "s"): it = mref(eng, st, it)
        for _ in range(3):           # Box<dyn Iterator> and &mut &mut
            if byref and it[0] == "ref":
                x = eng.load(st, it)
                if x[0] == "ref": it = x
        return runm(eng, st, fn, [it] + args[1:])
    if fam == "Iterator" and meth in ("collect", "partition", "sum", "max", "min", "max_by_key", "min_by_key", "unzip", "extend"):
        if meth == "collect" and call["dty"]["s"].startswith("alloc::vec::Vec"):
            it = a0 if a0[0] not in ("ref", "rv") else madt("ByRef", a0)
            return runm(eng, st, "it_collect_vec", [it])
        if meth == "collect" and call["dty"]["s"].startswith("core::result::Result<alloc::vec::Vec"):
            it = a0 if a0[0] not in ("ref", "rv") else madt("ByRef", a0)
            return runm(eng, st, "it_collect_res", [it])
        if meth == "sum":
            for i in eng.impl_index.get(("core::iter::traits::accum::Sum", strip_ty(call["dty"]["s"])), []):
                fn = eng.F.fns.get(i["items"][0])
                if fn: return eng.call_fn(st, fn, [a0], call)
        return None
    if fam == "Iterator" and meth == "next" or meth == "next" and name.startswith(("<core::", "core::iter", "<alloc::", "<&mut")):
        return it_next(eng, st, a0, call)
    if fam == "DoubleEndedIterator" and meth == "next_back":
        pass
    # ---- Option / Result
    if path.startswith(OPTION + "::") or path.startswith("core::option::Option"):
        m = tail(name)
        if m in OPT:
            if m in ("as_ref", "as_mut"):
                v = eng.load(st, eng.deref(a0))
                outs = []
                for s2, is_some in eng.fork_variant(st, v, 1):
                    outs.append((s2, some(eng.pref(s2, eng.deref(a0), ("f", 0, "0", "Some", OPTION))) if is_some else NONE))
                return outs
            if m == "take":
                r = eng.deref(a0)
                old = eng.load(st, r)
                eng.write(st, r, NONE, call["fn"], call["span"])
                return [(st, old)]
            if m == "replace":
                r = eng.deref(a0)
                old = eng.load(st, r)
                eng.write(st, r, some(args[1]), call["fn"], call["span"])
                return [(st, old)]
            if m in ("unwrap", "expect"):
                outs = []
                for s2, ok in eng.fork_variant(st, a0, 1):
                    if ok: outs.append((s2, eng.fld(a0, 0, "0", "Some")))
                    else: eng.panic(s2, "core::option::Option::unwrap", call)
                return outs
            return runm(eng, st, "option_" + m, args)
        if m in ("cloned", "copied"):
            outs = []
            for s2, ok in eng.fork_variant(st, a0, 1):
                outs.append((s2, some(clone(eng, s2, eng.fld(a0, 0, "0", "Some"))) if ok else NONE))
            return outs
        if m == "unwrap_or_default": return None
    if meth == "branch" and fam == "Try":
        return runm(eng, st, "option_branch" if "option" in name else "result_branch", args)
    if meth == "from_residual":
        return runm(eng, st, "option_from_residual" if "core::option::Option as" in name.split("<T>")[0] + " as" or "option" in name[:24] else "result_from_residual", args) if "option" in name[:24] else runm(eng, st, "result_from_residual", args)
    if path.startswith(RESULT):
        m = tail(name)
        if m in ("unwrap", "expect"):
            outs = []
            for s2, ok in eng.fork_variant(st, a0, 0):
                if ok: outs.append((s2, eng.fld(a0, 0, "0", "Ok")))
                else: eng.panic(s2, "core::result::Result::unwrap", call)
            return outs
        if m in RES: return runm(eng, st, RES[m], args)
        if m == "map": return runm(eng, st, "result_map", args)
    # ---- mem
    if name == "core::mem::replace" or name == "core::mem::swap" or name == "core::mem::take":
        r = eng.deref(a0)
        old = eng.load(st, r)
        if tail(name) == "replace":
            eng.write(st, r, args[1], call["fn"], call["span"])
            return [(st, old)]
        if tail(name) == "swap":
            r2 = eng.deref(args[1])
            o2 = eng.load(st, r2)
            eng.write(st, r, o2, call["fn"], call["span"]); eng.write(st, r2, old, call["fn"], call["span"])
            return [(st, UNIT)]
        ty = call["dty"]["s"]
        if ty.startswith("alloc::vec::Vec"): nv = ("seq", ())
        elif ty.startswith(OPTION): nv = NONE
        else: return None
        eng.write(st, r, nv, call["fn"], call["span"])
        return [(st, old)]
    if name in ("core::mem::drop", "core::mem::forget"): return [(st, UNIT)]
    # ---- comparisons
    if fam in ("PartialOrd",) or name.startswith("core::cmp::impls::"):
        if meth in ("lt", "le", "gt", "ge"):
            a, b = val(eng, st, a0), val(eng, st, args[1])
            if is_num(a) and is_num(b):
                return [(st, eng.cmp({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[meth], a, b))]
            return None
        if meth in ("partial_cmp", "cmp"):
            a, b = val(eng, st, a0), val(eng, st, args[1])
            if is_num(a) and is_num(b):
                r = order(eng, st, a, b)
                return [(s, some(v)) for s, v in r] if meth == "partial_cmp" else r
            return None
    if name == "core::ptr::eq": return [(st, eng.cmp("Eq", eng.deref(a0), eng.deref(args[1])))]
    if fam == "Ord" and meth in ("cmp", "min", "max") and eng.F.fns.get(name) is None or name.startswith("core::cmp::Ord::"):
        a, b = val(eng, st, a0), val(eng, st, args[1]) if len(args) > 1 else None
        if meth == "cmp" and is_num(a) and is_num(b): return order(eng, st, a, b)
        if meth in ("max", "min") and is_num(a) and is_num(b):
            outs = []
            for s2, ge in eng.fork(st, eng.cmp("Ge", a, b)):
                outs.append((s2, (a if ge else b) if meth == "max" else (b if ge else a)))
            return outs
    if name in ("core::cmp::max", "core::cmp::min") and is_num(a0):
        outs = []
        for s2, ge in eng.fork(st, eng.cmp("Ge", a0, args[1])):
            outs.append((s2, (a0 if ge else args[1]) if tail(name) == "max" else (args[1] if ge else a0)))
        return outs
    if meth in ("eq", "ne") and (fam == "PartialEq" or name.startswith(("core::cmp", "core::str", "core::tuple", "core::slice", "alloc::"))):
        if name in eng.F.fns: return None
        outs = []
        for s2, b in eq(eng, st, val(eng, st, a0), val(eng, st, args[1]), call):
            outs.append((s2, b if meth == "eq" else eng.notv(b)))
        return outs
    # ---- clone & conversions
    if meth == "clone" and fam == "Clone":
        if name in eng.F.fns: return None
        return [(st, clone(eng, st, a0))]
    if meth in ("to_owned", "to_vec", "to_string") and (path.startswith("alloc::") or "alloc::" in path):
        v = val(eng, st, a0)
        if v[0] in ("seq", "arr"): return [(st, ("seq", eng.seq(v)))]
        if v[0] == "str": return [(st, v)]
        return [(st, eng.snap(st, v))]
    if name == "alloc::boxed::Box::new" or name == "alloc::rcs::arc::Arc::new" or name == "alloc::rcs::rc::Rc::new" or name in ("alloc::sync::Arc::new", "alloc::rc::Rc::new"):
        eng.fid += 1
        c = ("B", eng.fid)
        st.mem[c] = a0
        return [(st, ("ref", c, ()))]
    if meth in ("deref", "deref_mut") and fam in ("Deref", "DerefMut"):
        s = call["name"]
        if "vec::Vec" in s: return [(st, as_seq_ref(eng, st, a0))]
        if "boxed::Box" in s or "::Arc<" in s or "::Rc<" in s or "arc::Arc" in s or "rc::Rc" in s:
            v = eng.load(st, eng.deref(a0))
            return [(st, eng.deref(v))]
        if "string::String" in s: return [(st, eng.deref(a0))]
        if "borrow::Cow" in s:
            return [(st, ("rv", eng.app("cow", eng.load(st, eng.deref(a0)))))]
        return None
    if meth in ("as_ref", "as_mut", "borrow", "borrow_mut", "as_slice", "as_mut_slice", "as_str") and ("vec::Vec" in name or "String" in name or "boxed::Box" in name):
        v = eng.load(st, eng.deref(a0))
        if "boxed::Box" in name: return [(st, eng.deref(v))]
        return [(st, as_seq_ref(eng, st, a0))]
    if meth in ("into", "from") and fam in ("Into", "From"):
        # identity conversions and numeric widening
        if name in ("<T as core::convert::From<T>>::from",): return [(st, a0)]
        src = call["aty"][0]["s"] if call["aty"] else ""
        if src == call["dty"]["s"]: return [(st, a0)]
        if call["aty"] and call["aty"][0]["k"] == "int" and call["dty"]["k"] == "int": return [(st, a0)]
        if call["dty"]["s"].startswith("alloc::vec::Vec<") and a0[0] in ("arr", "seq"): return [(st, a0)]
        for i in eng.impl_index.get(("core::convert::From", strip_ty(call["dty"]["s"])), []):
            for it in i["items"]:
                for f in eng.F.dups.get(it) or [eng.F.fns.get(it)]:
                    if f and f.sig and strip_ty(f.sig["in"][0]["s"]) == strip_ty(src): return eng.call_fn(st, f, [a0], call)
        return None
    # ---- Vec and slices
    vecish = path.startswith(("alloc::vec::Vec", "core::slice", "alloc::slice", "core::array")) or "alloc::vec::Vec" in name or name.startswith("<[")
    if vecish or (fam in ("Index", "IndexMut") and name.startswith(("<alloc::vec", "core::slice", "<[", "core::array"))):
        r = vec_call(eng, st, call, args, meth or tail(name))
        if r is not None: return r
    # ---- integers
    if name.startswith("core::num::"):
        m = tail(name)
        if m == "checked_sub": return runm(eng, st, "usize_checked_sub", args)
        if m == "saturating_sub": return runm(eng, st, "usize_saturating_sub", args)
        if m == "wrapping_add": return [(st, eng.binop(st, "Add", a0, args[1]))]
        if m == "checked_add": return [(st, some(eng.binop(st, "Add", a0, args[1])))]
        if m in ("wrapping_sub",): return [(st, eng.binop(st, "Sub", a0, args[1]))]
        if m in ("min_value",): return [(st, const(0))]
    if fam in ("Add", "Sub", "AddAssign", "SubAssign", "Mul") and name not in eng.F.fns and len(args) == 2:
        b = val(eng, st, args[1])
        if fam in ("Add", "Sub"):
            a = val(eng, st, a0)
            if is_num(a) and is_num(b) and call["dty"]["k"] == "int":
                return [(st, eng.binop(st, fam, a, b))]
        elif call["aty"][0]["k"] == "ref" and call["aty"][0]["to"]["k"] == "int":
            r = eng.deref(a0)
            eng.write(st, r, eng.binop(st, fam[:3], eng.load(st, r), b), call["fn"], call["span"])
            return [(st, UNIT)]
    # ---- bool
    if name in ("core::bool::then", "core::bool::then_some"):
        return runm(eng, st, "bool_" + tail(name), args)
    # ---- strings
    if name in ("core::str::len", "alloc::string::String::len"):
        v = val(eng, st, a0)
        if v[0] == "str": return [(st, const(len(v[1].encode())))]
        return [(st, num(eng.seqlen(v)))]
    if name in ("core::str::is_empty", "alloc::string::String::is_empty"):
        v = val(eng, st, a0)
        if v[0] == "str": return [(st, ("b", not v[1]))]
        return [(st, eng.cmp("Eq", num(eng.seqlen(v)), const(0)))]
    return None


def clone(eng, st, r):
    v = r
    if v[0] in ("ref", "rv", "view"): v = eng.load(st, v)
    elif v[0] == "s": v = eng.getcell(st, ("D", v[1]))
    if v[0] == "slice": return ("seq", eng.seq(v))
    return v


def order(eng, st, a, b):
    outs = []
    for s2, lt in eng.fork(st, eng.cmp("Lt", a, b)):
        if lt:
            outs.append((s2, ORD(0)))
        else:
            for s3, e in eng.fork(s2, eng.cmp("Eq", a, b)):
                outs.append((s3, ORD(1) if e else ORD(2)))
    return outs


def eq(eng, st, a, b, call, depth=0):
    """[(st, boolean value)]"""
    for _ in range(4):
        if a[0] in ("ref", "rv"): a = eng.load(st, a)
        if b[0] in ("ref", "rv"): b = eng.load(st, b)
    if a == b: return [(st, TRUE)]
    if a[0] == "s" and b[0] == "adt": a, b = b, a
    if a[0] == "adt" and b[0] == "s":
        vs = eng.variants(a[1])
        if vs and len(vs) > 1:
            outs = []
            for s2, same in eng.fork_variant(st, b, a[2], len(vs)):
                if not same: outs.append((s2, FALSE)); continue
                outs.extend(eq_fields(eng, s2, a[3], tuple(eng.fld(b, i, str(i), vs[a[2]]) for i in range(len(a[3]))), call, depth))
            return outs
    if a[0] == "adt" and b[0] == "adt" and a[1] == b[1]:
        if a[2] != b[2]: return [(st, FALSE)]
        return eq_fields(eng, st, a[3], b[3], call, depth)
    if a[0] == "tup" and b[0] == "tup": return eq_fields(eng, st, a[1], b[1], call, depth)
    return [(st, eng.cmp("Eq", a, b))]


def eq_fields(eng, st, xs, ys, call, depth):
    states = [st]
    outs = []
    if len(xs) == 1: return eq(eng, st, xs[0], ys[0], call, depth + 1)
    for x, y in zip(xs, ys):
        nxt = []
        for s in states:
            for s2, c in eq(eng, s, x, y, call, depth + 1):
                for s3, b in eng.fork(s2, c):
                    if b: nxt.append(s3)
                    else: outs.append((s3, FALSE))
        states = nxt
    outs.extend((s, TRUE) for s in states)
    return outs


def it_next(eng, st, a0, call):
    r = a0
    for _ in range(4):
        if r[0] in ("ref", "rv"):
            v = eng.load(st, r)
            if v[0] in ("ref", "rv"):
                r = v
                continue
        break
    v = eng.load(st, eng.deref(r))
    if v[0] == "adt" and v[1].startswith(M):
        t = v[1][len(M):]
        im = eng.impl_index.get(("models::It", v[1]))
        if not im: return None
        fn = eng.M.fns[im[0]["items"][-1]]
        return eng.run(fn, [r], st)
    if v[0] == "adt" and v[1].startswith("core::ops::range"):
        it = to_iter(eng, st, v, call)
        eng.store(st, eng.deref(r), it)
        return it_next(eng, st, r, call)
    if v[0] == "adt" and v[1] in eng.F.adts: return None
    if v[0] in ("seq", "arr") or v[0] == "adt" and v[1] == OPTION:
        eng.store(st, eng.deref(r), to_iter(eng, st, v, call))
        return it_next(eng, st, r, call)
    if v[0] == "s":
        # an opaque iterator is an unknown sequence
        it = madt("VecIter", ("rv", ("s", eng.T.intern(("seqof", v)))), const(0))
        eng.store(st, eng.deref(r), it)
        return it_next(eng, st, r, call)
    return None


def vec_call(eng, st, call, args, m):
    a0 = args[0] if args else None
    name = call["name"]
    if m in ("new", "with_capacity") and name.startswith("alloc::vec::Vec"): return [(st, ("seq", ()))]
    if m == "from_elem": return None
    if m in ("len", "is_empty"):
        ln = eng.reflen(st, as_seq_ref(eng, st, a0))
        return [(st, num(ln) if m == "len" else eng.cmp("Eq", num(ln), const(0)))]
    if m == "push":
        r = eng.deref(a0)
        v = eng.load(st, r)
        eng.ck.on_push(eng, st, r, args[1], call["fn"])
        eng.write(st, r, ("seq", eng.seq(v) + (("it", args[1]),)), call["fn"], call["span"])
        return [(st, UNIT)]
    if m in ("extend_from_slice", "extend", "append"):
        r = eng.deref(a0)
        v = eng.load(st, r)
        if m == "extend":
            it = to_iter(eng, st, args[1], call) or args[1]
            return runm(eng, st, "vec_extend", [r, it])
        x = eng.load(st, as_seq_ref(eng, st, args[1]))
        x = x if x[0] in ("seq", "slice", "arr") else x
        eng.write(st, r, ("seq", eng.seq(v) + eng.seq(x)), call["fn"], call["span"])
        if m == "append": eng.write(st, eng.deref(args[1]), ("seq", ()), call["fn"], call["span"])
        return [(st, UNIT)]
    if m == "clear":
        eng.write(st, eng.deref(a0), ("seq", ()), call["fn"], call["span"])
        return [(st, UNIT)]
    if m == "pop":
        r = eng.deref(a0)
        v = eng.load(st, r)
        ch = eng.seq(v)
        if not ch: return [(st, NONE)]
        if ch[-1][0] == "it":
            eng.write(st, r, ("seq", ch[:-1]), call["fn"], call["span"])
            return [(st, some(ch[-1][1]))]
        ln = eng.seqlen(v)
        outs = []
        for s2, nz in eng.fork(st, eng.cmp("Gt", num(ln), const(0))):
            if not nz: outs.append((s2, NONE)); continue
            hk = getattr(eng.ck, "pop_chunk", None)
            if hk:
                q = hk(eng, s2, r, v)
                if q is not None:
                    outs.extend(q)
                    continue
            e = eng.index(s2, v, num(L.shift(ln, -1)))
            ni = eng.T.intern(("popped", ("T", ch[-1][1])))
            eng.chunk_len[ni] = L.shift(eng.cklen(ch[-1][1]), -1)
            eng.write(s2, r, ("seq", ch[:-1] + (("ck", ni),)), call["fn"], call["span"])
            outs.append((s2, some(e)))
        return outs
    if m in ("set_len", "truncate"):
        r = eng.deref(a0)
        v = eng.load(st, r)
        ch = eng.seq(v)
        n = aff(args[1])
        pos = ((), 0)
        for k in range(len(ch) + 1):
            d = L.add(n, pos, -1)
            if d == ((), 0) or (d[0] and eng.holds(st, d) and eng.holds(st, L.neg(d))):
                eng.write(st, r, ("seq", ch[:k]), call["fn"], call["span"])
                return [(st, UNIT)]
            if k < len(ch): pos = L.shift(pos, 1) if ch[k][0] == "it" else L.add(pos, eng.cklen(ch[k][1]))
        if m == "truncate" and eng.holds(st, L.add(n, pos, -1)): return [(st, UNIT)]
        ni = eng.T.intern(("trunc", v, args[1]))
        eng.chunk_len[ni] = n
        eng.write(st, r, ("seq", (("ck", ni),)), call["fn"], call["span"])
        return [(st, UNIT)]
    if m in ("index", "index_mut") and len(args) == 2:
        i = args[1]
        base = as_seq_ref(eng, st, a0)
        ln = eng.reflen(st, base)
        if i[0] == "adt" and "range" in i[1]:
            t = tail(i[1])
            if t == "RangeFrom": lo, hi = aff(i[3][0]), ln
            elif t == "RangeTo": lo, hi = ((), 0), aff(i[3][0])
            elif t == "Range": lo, hi = aff(i[3][0]), aff(i[3][1])
            elif t == "RangeFull": lo, hi = ((), 0), ln
            else: return None
            if lo is None or hi is None: return None
            for q in (L.add(ln, hi, -1), L.add(hi, lo, -1)):
                c = ("c", "ge", q, True) if q[0] else ("b", q[1] >= 0)
                if not eng.quiet: eng.ck.on_assert(eng, st, "slice", c, call["fn"], call["span"])
                if not eng.assume(st, c, True): return []
            return [(st, view(eng, st, base, lo, L.add(hi, lo, -1)))]
        if is_num(i):
            c = eng.cmp("Lt", i, num(ln))
            if not eng.quiet: eng.ck.on_assert(eng, st, "bounds", c, call["fn"], call["span"])
            if not eng.assume(st, c, True): return []
            return [(st, eng.pref(st, base, ("x", i)))]
        return None
    if m in ("get", "get_mut") and len(args) == 2 and is_num(args[1]):
        base = as_seq_ref(eng, st, a0)
        outs = []
        for s2, ok in eng.fork(st, eng.cmp("Lt", args[1], num(eng.reflen(st, base)))):
            outs.append((s2, some(eng.pref(s2, base, ("x", args[1]))) if ok else NONE))
        return outs
    if m in ("first", "last", "last_mut", "first_mut"):
        base = as_seq_ref(eng, st, a0)
        ln = eng.reflen(st, base)
        outs = []
        for s2, ok in eng.fork(st, eng.cmp("Gt", num(ln), const(0))):
            outs.append((s2, some(eng.pref(s2, base, ("x", const(0) if m.startswith("first") else num(L.shift(ln, -1))))) if ok else NONE))
        return outs
    if m == "split_first":
        base = as_seq_ref(eng, st, a0)
        ln = eng.reflen(st, base)
        outs = []
        for s2, ok in eng.fork(st, eng.cmp("Gt", num(ln), const(0))):
            outs.append((s2, some(("tup", (eng.pref(s2, base, ("x", const(0))), view(eng, s2, base, ((), 1), L.shift(ln, -1))))) if ok else NONE))
        return outs
    if m == "split_at":
        base = as_seq_ref(eng, st, a0)
        ln = eng.reflen(st, base)
        n = aff(args[1])
        c = eng.cmp("Le", args[1], num(ln))
        if not eng.quiet: eng.ck.on_assert(eng, st, "bounds", c, call["fn"], call["span"])
        if not eng.assume(st, c, True): return []
        return [(st, ("tup", (view(eng, st, base, ((), 0), n), view(eng, st, base, n, L.add(ln, n, -1)))))]
    if m in ("contains",):
        return runm(eng, st, "it_any_eq", [madt("SliceIter", as_seq_ref(eng, st, a0), const(0)), args[1]]) if False else None
    if m in ("swap_remove", "remove", "insert", "dedup", "dedup_by_key", "sort", "sort_by", "sort_by_key", "reverse", "retain", "drain", "resize", "truncate", "split_off"):
        return None
    return None
