"""C25: the file index mirrors the file set. The handling of one event is interpreted over MIR: the file system, the filter,
the mapper and the entries below a directory are opaque; what is removed from and stored in the index is recorded in order."""
from rules_codegen import CgCk, Cg, RESULT, unref
from rules_search import opt, feasible, eqn, MON
from rules_text import Bench, fidx
from builtins_rs import runm, val
from callgraph import Graph
from absint import *
from facts import CheckError

IX = "indxr::"
IMPL, SET, FILE, INDEX = IX + "FileIndexImpl", IX + "IndexableFileSet", IX + "IndexedFile", IX + "FileIndex"
W = "handling of a file system event"
GONE, DIR, PLAIN = 0, 1, 2
# notify 4: DebouncedEvent
EVENTS = ("NoticeWrite", "NoticeRemove", "Create", "Write", "Chmod", "Remove", "Rename", "Rescan", "Error")
DUE = {"Create": (0,), "Write": (0,), "Remove": (0,), "Rename": (0, 1)}
FS = {"exists": (DIR, PLAIN), "is_dir": (DIR,), "is_file": (PLAIN,)}
ITER = "core::iter::traits::iterator::Iterator"


class IxCk(CgCk):
    def __init__(self, F):
        CgCk.__init__(self, F)
        self.path = self.me = self.walk = None
        self.locals = None

    def same(self, eng, st, a):
        a = self.strof(eng, st, val(eng, st, a))
        return eng.snap(st, a)

    def fork_state(self, eng, st, p, of):
        """what is at this path: nothing, a directory or a file"""
        out = []
        for s, b in eng.fork(st, eng.app("there", p)):
            if p == self.path and not b: self.s(s, "kind", MON(GONE))
            if not b: out.append((s, GONE in of)); continue
            for s2, d in eng.fork(s, eng.app("directory", p)):
                if p == self.path: self.s(s2, "kind", MON(DIR if d else PLAIN))
                if d: out.append((s2, DIR in of)); continue
                if PLAIN not in of or p == self.path: out.append((s2, PLAIN in of)); continue
                # below a directory there are also links and devices
                out += eng.fork(s2, eng.app("plain", p))
        return [(s, TRUE if b else FALSE) for s, b in out]

    def held(self, st): return self.g(st, "held") is not None and self.g(st, "held")[2]

    def guard(self, eng, st, x):
        for _ in range(6):
            if x[0] in ("ref", "rv"): x = eng.load(st, x)
            else: break
        return x[0] == "adt" and x[1] == "Guard"

    def is_data(self, eng, st, x):
        for _ in range(6):
            if x[0] == "adt" and x[1] in ("Index", "LocalMap"): return x[1]
            if x[0] in ("ref", "rv"): x = eng.load(st, x)
            else: break
        return None

    def on_drop(self, eng, st, pv, ty, fn, span):
        if "MutexGuard" in ty["s"] and self.has_guard(eng.load(st, pv)): self.s(st, "held", MON(0))

    def has_guard(self, v, d=0):
        if v[0] == "adt": return v[1] == "Guard" or d < 4 and any(self.has_guard(x, d + 1) for x in v[3])
        return v[0] == "tup" and d < 4 and any(self.has_guard(x, d + 1) for x in v[1])

    # ---- effects on the index
    def under(self, eng, st, k): return eng.app("under", k, self.path)

    def removes(self, eng, st, which):
        if self.g(st, "stored") is not None: self.note(eng, "late", "takes entries out after the new ones have been stored")
        self.s(st, "gone:" + which, MON(1))

    def entry(self, eng, st, k, v):
        """the path of an entry, if key and value belong together"""
        k, v = self.same(eng, st, k), self.same(eng, st, v)
        if v[0] != "adt" or v[1] != FILE: self.note(eng, "value", "stores something that cannot be followed"); return None
        p = self.same(eng, st, v[3][fidx(eng.F, FILE, "path")])
        x = v[3][fidx(eng.F, FILE, "value")]
        if p != k: self.note(eng, "path", "stores a file under the path of another one")
        if x != eng.fld(eng.app("mapped", k), 0, "0", "Some", OPTION): self.note(eng, "value", "stores something other than the value of the file ")
        return k

    def store(self, eng, st, k, v):
        c = self.g(st, "cur")
        if self.locals is not None and self.ofs(st) == self.locals and c is not None and c[2] == 1:
            x = c[3][0]
            if unref(eng, st, k) == eng.fld(x, 0, "0", "", None) and unref(eng, st, v) == eng.fld(x, 1, "1", "", None):
                self.s(st, "r", self.g(st, "k")); self.s(st, "cur", MON(0)); self.s(st, "stored", MON(1))
                return
        p = self.entry(eng, st, k, v)
        self.s(st, "stored", MON(1))
        if p is None: return
        if p == self.path: self.s(st, "self", MON(1)); return
        self.below(eng, st, p)

    def below(self, eng, st, p):
        self.resolve(eng, st)
        c = self.g(st, "cur")
        if c is None or c[0] != "adt" or c[2] != 1 or p != self.path_of(eng, c[3][0]): self.note(eng, "other", "stores a file that is not the one at hand"); return
        if self.pred(eng, st, c[3][0]) is not True: self.note(eng, "filter", "stores a file that does not belong to the file set")
        if self.g(st, "skipped") is not None: self.note(eng, "skip", "leaves out a file below the directory")
        self.s(st, "r", self.g(st, "k"))
        self.s(st, "cur", MON(0))

    def path_of(self, eng, el): return eng.app("path", eng.fld(el, 0, "0", "Ok", RESULT))

    def all_below(self, eng, st):
        if self.ofs(st) != self.walk or self.walk is None: return False
        self.resolve(eng, st)
        n, k = num(eng.seqlen(self.walk)), self.g(st, "k")
        return self.g(st, "skipped") is None and eqn(eng, st, n, k) and eqn(eng, st, self.g(st, "r"), k)

    def belongs(self, eng, st, el):
        """is the entry at hand part of the file set?"""
        if self.locals is not None and self.ofs(st) == self.locals: return True
        if st.vars.get(el[1]) == 1: return False
        p = self.path_of(eng, el)
        yes = st.vars.get(el[1]) == 0
        for q, neg in (("there", 0), ("directory", 1), ("plain", 0)):
            d = eng.decide(st, eng.app(q, p))
            if d is None: 
                if q == "plain": yes = False
            elif d == bool(neg): return False
        d = eng.decide(st, eng.app("filter", p))
        if d is False: return False
        if d is not True: yes = False
        m = st.vars.get(eng.app("mapped", p)[1])
        if m == 0: return False
        return True if yes and m == 1 else None

    def intercept(self, eng, st, name, args, call):
        m, tr = call["method"], call["trait"]
        if "{closure" in name: return CgCk.intercept(self, eng, st, name, args, call)
        # paths are values
        if args and (m in ("to_owned", "to_path_buf", "clone", "as_path", "as_ref", "deref", "into", "from", "borrow", "into_path", "into_boxed_path", "into_path_buf", "to_string_lossy") and ("Path" in name or "Path" in call["name"] or any("Path" in str(t.get("s")) for t in call["targs"]) or "Path" in call["dty"]["s"])) and "HashMap" not in call["dty"]["s"] and "Guard" not in name:
            x = self.same(eng, st, args[0])
            if m == "into_path": x = eng.app("path", x)
            return [(st, x if "&" not in call["dty"]["s"][:1] else ("rv", x))]
        if name.startswith("std::path::Path::") and m in FS: return self.fork_state(eng, st, self.same(eng, st, args[0]), FS[m])
        if name in ("std::fs::metadata", "std::path::Path::metadata", "std::fs::symlink_metadata"):
            p = self.same(eng, st, args[0])
            return [(s, ("adt", RESULT, 0, (eng.app("meta", p),)) if b == TRUE else ("adt", RESULT, 1, (eng.app("ioerror", p),))) for s, b in self.fork_state(eng, st, p, (DIR, PLAIN))]
        if name.startswith(("std::fs::Metadata::", "std::fs::FileType::")) and m in FS:
            x = eng.struct(val(eng, st, args[0]))
            if x and x[1] == "meta": return self.fork_state(eng, st, x[2], FS[m])
        if name.startswith("std::fs::Metadata::") and m == "file_type": return [(st, val(eng, st, args[0]))]
        if name == "std::path::Path::starts_with":
            k, p = self.same(eng, st, args[0]), self.same(eng, st, args[1])
            if k == p: return [(st, TRUE)]
            return [(s, TRUE if b else FALSE) for s, b in eng.fork(st, eng.app("under", k, p))]
        if name == "std::path::Path::ancestors": return [(st, self.items(eng, st, eng.app("list:ancestors", self.same(eng, st, args[0]))))]
        if m in ("eq", "ne") and tr == "core::cmp::PartialEq" and "Path" in name:
            k, p = self.same(eng, st, args[0]), self.same(eng, st, args[1])
            c = TRUE if k == p else eng.cmp("Eq", k, p)
            return [(st, c if m == "eq" else eng.notv(c))]
        # directories
        if name == "walkdir::WalkDir::new": return [(st, ("adt", "Walk", 0, (eng.app("walk", self.same(eng, st, args[0])),)))]
        w = val(eng, st, args[0]) if args else None
        if w is not None and w[0] == "adt" and w[1] == "Walk":
            if m == "into_iter": 
                self.start(eng, st, w[3][0])
                return [(st, self.items(eng, st, w[3][0]))]
            if m in ("sort_by", "sort_by_key", "sort_by_file_name", "contents_first", "max_open"): return [(st, w)]
            self.note(eng, "walk", "restricts what is looked at below a directory (%s)" % m)
            return [(st, w)]
        if name.startswith("walkdir::"):
            x = val(eng, st, args[0])
            if m in ("path", "into_path"): return [(st, eng.app("path", x))]
            if m in ("file_type", "metadata"):
                r = eng.app("meta", eng.app("path", x))
                return [(st, r if m == "file_type" else ("adt", RESULT, 0, (r,)))]
        # filter and mapper
        if tr == "core::ops::function::Fn" and m == "call" and name.startswith("<alloc::boxed::Box<"):
            a = val(eng, st, args[1])
            p = self.same(eng, st, a[1][0] if a[0] == "tup" else a)
            if call["dty"]["s"] == "bool":
                outs = eng.fork(st, eng.app("filter", p))
                for s, b in outs:
                    if p == self.path: self.s(s, "filter", MON(1 if b else 0))
                return [(s, TRUE if b else FALSE) for s, b in outs]
            if self.held(st): self.note(eng, "lock", "reads a file while it holds the lock of the index")
            return [(st, eng.app("mapped", p))]
        # the lock
        if m in ("lock", "try_lock") and name.startswith("std::sync::"):
            if self.held(st): self.note(eng, "deadlock", "takes the lock of the index while it holds it")
            self.s(st, "held", MON(1))
            return [(st, ("adt", RESULT, 0, (("adt", "Guard", 0, ()),)))]
        if name == "core::mem::drop":
            if self.has_guard(args[0]): self.s(st, "held", MON(0))
            return [(st, UNIT)]
        if m in ("deref", "deref_mut") and "Guard" in name: return [(st, ("rv", ("adt", "Index", 0, ())))]
        # tables
        if name.startswith("std::collections::hash::map::HashMap") and m in ("new", "with_capacity", "default"): return [(st, ("adt", "LocalMap", 0, ()))]
        if m == "default" and "HashMap" in call["dty"]["s"]: return [(st, ("adt", "LocalMap", 0, ()))]
        if tr == ITER and m == "collect" and "HashMap<" in call["dty"]["s"]:
            outs = runm(eng, st, "it_collect_vec", [args[0]])
            return [(s, ("adt", "LocalMap", 0, ())) for s, v in outs]
        t = self.is_data(eng, st, args[0]) if args else None
        if t == "LocalMap" and m in ("into_iter", "drain", "iter") and "hash" in name:
            if self.all_below(eng, st): self.s(st, "walked", MON(1))
            if self.locals is None:
                self.locals = eng.app("new entries")
                self.scan.add(self.locals); self.order.append(self.locals)
            self.start(eng, st, self.locals)
            return [(st, self.items(eng, st, self.locals))]
        if t == "LocalMap" and "hash" in name:
            if m == "insert":
                p = self.entry(eng, st, args[1], args[2])
                if p == self.path: self.s(st, "pending", MON(1))
                elif p is not None: self.below(eng, st, p)
                return [(st, NONE)]
            if m == "contains_key": return [(s, TRUE if b else FALSE) for s, b in eng.fork(st, eng.app("new", self.same(eng, st, args[1])))]
            if m in ("is_empty", "len", "reserve"): return [(st, eng.fresh("size"))]
            raise CheckError("%s: cannot follow %s on the new entries" % (W, m))
        if t == "Index" and "hash" in name:
            if not self.held(st): self.note(eng, "unlocked", "changes the index without its lock")
            return self.change(eng, st, m, args, call)
        return CgCk.intercept(self, eng, st, name, args, call)

    def change(self, eng, st, m, args, call):
        if m in ("remove", "remove_entry"):
            k = self.same(eng, st, args[1])
            if k != self.path: self.note(eng, "remove", "takes out the entry of another path")
            else: self.removes(eng, st, "self")
            return [(s, v) for s, v in ((st.copy(), NONE), (st, some(eng.fresh("old"))))]
        if m == "insert":
            self.store(eng, st, args[1], args[2])
            return [(st.copy(), NONE), (st, some(eng.fresh("old")))]
        if m == "clear": self.note(eng, "clear", "forgets files that have nothing to do with the event"); return [(st, UNIT)]
        if m == "retain":
            key = eng.fresh("key")
            s1 = st.copy()
            before = set(s1.mem)
            f = eng.fresh("entry")
            cell = ("D", f[1])
            u = eng.app("under", key, self.path)
            outs = eng.call_closure(s1, args[1], [("rv", key), ("rv", f)], call)
            kept_under = False
            for s, b in outs:
                for s2, t in eng.fork(s, b):
                    if not feasible(s2): continue
                    d = eng.decide(s2, u)
                    new = eng.decide(s2, eng.app("new", key)) is True
                    if t and d is not False and not new: self.note(eng, "keep", "keeps entries for what is below the path"); kept_under = True
                    if t and new: self.s(st, "needs", MON(1))
                    if not t and d is not True: self.note(eng, "forget", "forgets files that have nothing to do with the event")
            self.removes(eng, st, "all"); self.removes(eng, st, "self")
            return [(st, UNIT)]
        if m == "extend":
            if self.is_data(eng, st, args[1]) == "LocalMap":
                self.s(st, "stored", MON(1)); self.s(st, "extended", MON(1))
                if self.g(st, "pending") is not None: self.s(st, "self", MON(1))
                return [(st, UNIT)]
            v = val(eng, st, args[1])
            if v[0] == "adt" and v[1] == OPTION:
                if v[2] == 0: return [(st, UNIT)]
                v = v[3][0]
                self.store(eng, st, v[1][0], v[1][1])
                return [(st, UNIT)]
            if v[0] in ("seq",):
                self.s(st, "stored", MON(1)); self.s(st, "extended", MON(1))
                return [(st, UNIT)]
            outs = runm(eng, st, "it_collect_vec", [args[1]])
            for s, _ in outs: self.s(s, "stored", MON(1)); self.s(s, "extended", MON(1))
            return [(s, UNIT) for s, _ in outs]
        if m in ("contains_key", "is_empty"): return [(s, TRUE if b else FALSE) for s, b in eng.fork(st, eng.fresh("has"))]
        if m in ("len", "reserve", "shrink_to_fit"): return [(st, eng.fresh("size"))]
        raise CheckError("%s: cannot follow %s on the index" % (W, m))

    def on_push(self, eng, st, ref, item, fn):
        it = self.same(eng, st, item)
        if it[0] == "tup" and len(it[1]) == 2 and it[1][1][0] == "adt" and it[1][1][1] == FILE:
            p = self.entry(eng, st, it[1][0], it[1][1])
            if p == self.path: self.s(st, "pending", MON(1))
            elif p is not None: self.below(eng, st, p)
            return
        if it[0] == "adt" and it[1] == FILE: raise CheckError(W + ": cannot follow how the entries of a directory are collected")

    def on_variant(self, eng, st, i, idx, path):
        if i == eng.app("mapped", self.path)[1]: self.s(st, "mapped", MON(idx))
        self.resolve(eng, st)


class Ix(Cg):
    def __init__(self, F, M, rep, ctx):
        Cg.__init__(self, F, M, rep, ctx)
        self.prop = "C25"


def method(F, adt, name):
    fs = [f for p, f in F.fns.items() if p.startswith(adt + "::") and p.split("::")[-1] == name and "{" not in p]
    if len(fs) != 1: raise CheckError("anchor missing: %s::%s" % (adt, name))
    return fs[0]


def change(S):
    """one event about one path"""
    F = S.F
    fn = method(F, IMPL, "change")
    b = Bench(F, S.M, IxCk(F))
    b.eng.unroll = True
    b.k = b.ck
    e, ck = b.eng, b.ck
    path = e.fresh("path")
    ck.path = path
    ck.walk = e.app("walk", path)
    ck.scan = {ck.walk}
    ck.order = [ck.walk]
    ck.pred = ck.belongs
    me = b.cell(e.fresh("index"))
    outs = [(s, v) for s, v in e.run(fn, [me, ("rv", path)], b.st) if feasible(s)]
    S.ctx.account(e)
    seen = set()
    for s, v in outs:
        ck.resolve(e, s)
        if ck.held(s): ck.note(e, "leak", "never gives up the lock of the index")
        kind = ck.g(s, "kind")
        cases = [kind[2]] if kind is not None else [GONE, DIR, PLAIN]
        for k in cases:
            seen.add(k)
            g1, g2 = ck.g(s, "gone:self") is not None, ck.g(s, "gone:all") is not None
            st_self, ext = ck.g(s, "self") is not None, ck.g(s, "extended") is not None
            whole = ck.all_below(e, s)
            if ck.locals is not None and ck.ofs(s) == ck.locals:
                n = num(e.seqlen(ck.locals))
                moved = ck.g(s, "skipped") is None and eqn(e, s, n, ck.g(s, "k")) and eqn(e, s, ck.g(s, "r"), ck.g(s, "k"))
                whole, ext = ck.g(s, "walked") is not None, moved
                st_self = st_self or moved and ck.g(s, "pending") is not None
            what = {GONE: "gone", DIR: "a directory", PLAIN: "a file"}[k]
            S.say(fn, "what was below the path is forgotten (%s)" % what, g2, "below:%s" % what, "a path that is now %s keeps entries for files below it" % what)
            if k == PLAIN:
                f, m = ck.g(s, "filter"), ck.g(s, "mapped")
                f = None if f is None else bool(f[2]); m = None if m is None else m[2]
                want = True if f is True and m == 1 else False if f is False or m == 0 else None
                S.say(fn, "a file that belongs to the file set is stored", want is not True or st_self, "store", "a file of the file set that yields a value is not stored")
                S.say(fn, "only files that belong to the file set are stored", want is True or not st_self, "extra", "a file is stored that does not belong to the file set or has no value")
                S.say(fn, "the old entry of a file is replaced", st_self or g1 or g2 or f is False, "stale", "a file keeps its old entry although it has no value any more")
            elif k == GONE:
                S.say(fn, "nothing is stored for a path that is gone", not st_self, "ghost", "an entry is stored for a path that does not exist")
            else:
                S.say(fn, "nothing is stored for the directory itself", not st_self, "direntry", "an entry is stored for a directory")
                S.say(fn, "all files below a directory are stored", ext and whole, "all", "not every file of the file set below a directory is stored")
            S.ctx.count("outcomes")
    S.say(fn, "all cases are handled", seen == {GONE, DIR, PLAIN}, "cases", "handles only some of: gone, directory, file")
    for k, m in ck.bad: S.say(fn, "the index changes by the event only", False, k, "%s: %s" % (W, m))
    if not ck.bad: S.say(fn, "the index changes by the event only", True, "monitor", "")
    panics(S, ck, fn)


def panics(S, ck, fn):
    for s, p, n in ck.panics: S.say(fn, "no panic", not feasible(s), "panic:" + p, "may panic in %s (%s)" % (p, n))


class WatchCk(IxCk):
    """the watching thread: every root is indexed and watched before the first event, every event is handled before the next"""
    KINDS = ("changed", "watched")
    changefn = None

    def __init__(self, F):
        IxCk.__init__(self, F)
        self.pred = lambda eng, st, el: None
        self.roots = None
        self.recvs = 0
        self.seen = set()

    def intercept(self, eng, st, name, args, call):
        m = call["method"]
        if name == self.changefn:
            p = self.same(eng, st, args[1])
            self.did(eng, st, "changed", p)
            x = eng.struct(p) if p[0] == "s" else None
            ev = self.g(st, "event")
            if x and x[0] == "f" and ev is not None and ev[2] and ("s", x[3][1]) == ev[3][0]: self.s(st, "did:%s" % x[2], MON(1))
            return [(st, UNIT)]
        if name.startswith("std::sync::mpsc::channel"): return [(st, ("tup", (("adt", "Tx", 0, ()), ("adt", "Rx", 0, ()))))]
        if m == "clone" and val(eng, st, args[0]) == ("adt", "Tx", 0, ()): return [(st, ("adt", "Tx", 0, ()))]
        if name.startswith("notify::") or "notify::Watcher" in (call["trait"] or ""):
            if m == "new": return [(st, ("adt", RESULT, 0, (("adt", "Watcher", 0, ()),)))]
            if m == "watch":
                self.did(eng, st, "watched", self.same(eng, st, args[1]))
                mode = val(eng, st, args[2])
                if mode[0] == "adt" and mode[2] != 0: self.note(eng, "mode", "does not watch what is below a root")
                return [(st, ("adt", RESULT, 0, (UNIT,)))]
            if m == "unwatch": self.note(eng, "unwatch", "stops watching a root")
        if m in ("recv", "recv_timeout", "try_recv") and val(eng, st, args[0]) == ("adt", "Rx", 0, ()): return self.receive(eng, st, m)
        if name.startswith("log::") or "log::" in name or name.startswith(("std::time::", "core::time::", "core::fmt::")):
            return [(st, FALSE if call["dty"]["s"] == "bool" else UNIT if call["dty"]["s"] == "()" else eng.app("log"))]
        return IxCk.intercept(self, eng, st, name, args, call)

    def did(self, eng, st, kind, p):
        c = self.g(st, "cur")
        if c is not None and c[0] == "adt" and c[2] == 1 and self.same(eng, st, c[3][0]) == p: self.s(st, "r:" + kind, self.g(st, "k"))

    def start(self, eng, st, seq):
        self.settle(eng, st)
        IxCk.start(self, eng, st, seq)
        for k in self.KINDS:
            self.s(st, "r:" + k, const(0)); st.mem.pop(("G", "miss:" + k), None)

    def taken(self, eng, st, child, k):
        for kd in self.KINDS:
            if not eqn(eng, st, self.g(st, "r:" + kd), self.g(st, "k")): self.s(st, "miss:" + kd, MON(1))
        IxCk.taken(self, eng, st, child, k)

    def settle(self, eng, st):
        if self.ofs(st) is None: return
        n, k = num(eng.seqlen(self.roots)), self.g(st, "k")
        if not eqn(eng, st, n, k): return
        for kd in self.KINDS:
            if self.g(st, "miss:" + kd) is None and eqn(eng, st, self.g(st, "r:" + kd), k): self.s(st, "all:" + kd, MON(1))

    def receive(self, eng, st, m):
        if not eng.quiet: self.recvs += 1
        self.settle(eng, st)
        for kd in self.KINDS:
            if self.g(st, "all:" + kd) is None: self.note(eng, "roots:" + kd, "waits for events before every root has been %s" % {"changed": "indexed", "watched": "put under watch"}[kd])
        self.settled_event(eng, st)
        for f in ("0", "1"): st.mem.pop(("G", "did:" + f), None)
        out = []
        s1, s2 = st.copy(), st.copy()
        self.s(s1, "event", MON(0))
        out.append((s1, ("adt", RESULT, 1, (eng.fresh("recverr"),))))
        for i, n in enumerate(EVENTS):
            s = st.copy()
            ev = eng.app("event", ("str", n))
            self.s(s, "event", MON(i + 1, ev))
            s.vars[ev[1]] = i
            out.append((s, ("adt", RESULT, 0, (ev,))))
        return out

    def settled_event(self, eng, st):
        ev = self.g(st, "event")
        if ev is None or not ev[2]: return
        n = EVENTS[ev[2] - 1]
        if not eng.quiet: self.seen.add(n)
        for f in DUE.get(n, ()):
            if self.g(st, "did:%d" % f) is None: self.note(eng, "event:%s.%d" % (n, f), "waits for the next event without having handled a %s event%s" % (n, "" if len(DUE[n]) == 1 else " for its %s path" % ("first", "second")[f]))

    def on_drop(self, eng, st, pv, ty, fn, span):
        if "Watcher" in ty["s"] and "Result" not in ty["s"] and "Error" not in ty["s"]: self.note(eng, "dropped", "stops watching before the first event")
        IxCk.on_drop(self, eng, st, pv, ty, fn, span)


def rootsof(e, F, me):
    s = e.fld(me, fidx(F, IMPL, "file_set"), "file_set", "", IMPL)
    return e.fld(s, fidx(F, SET, "roots"), "roots", "", SET)


def watcher(S):
    F = S.F
    fn = F.fn(IX + "watch")
    b = Bench(F, S.M, WatchCk(F))
    b.eng.unroll = True
    e, ck = b.eng, b.ck
    ck.changefn = method(F, IMPL, "change").path
    me = e.fresh("index")
    ck.roots = rootsof(e, F, me)
    me = b.cell(me)
    ck.scan = {ck.roots}
    ck.order = [ck.roots]
    outs = e.run(fn, [me], b.st)
    S.ctx.account(e)
    S.ctx.stuck.discard(fn.path)          # it is meant to run for ever
    S.say(fn, "events are waited for", ck.recvs > 0, "recv", "anchor missing: does not wait for events")
    S.say(fn, "the thread goes on for ever", not [1 for s, v in outs if feasible(s)], "ends", "stops handling events")
    S.say(fn, "every event comes to its end", ck.seen == set(EVENTS), "seen", "does not wait for another event after a %s event" % ", ".join(sorted(set(EVENTS) - ck.seen)))
    for k, m in ck.bad: S.say(fn, "roots and events", False, k, m)
    S.ctx.count("events", len(EVENTS))


class ReadCk(IxCk):
    """every entry is handed to the sink until it has seen enough"""
    def __init__(self, F):
        IxCk.__init__(self, F)
        self.values = None
        self.sink = None
        self.pred = lambda eng, st, el: True

    def intercept(self, eng, st, name, args, call):
        m = call["method"]
        if self.is_data(eng, st, args[0]) == "Index" if args else False:
            if m in ("values", "iter", "into_iter", "keys", "values_mut", "iter_mut") and "hash" in name:
                if not self.held(st): self.note(eng, "unlocked", "reads the index without its lock")
                if m == "values": self.start(eng, st, self.values); return [(st, self.items(eng, st, self.values))]
                raise CheckError("cannot follow how the entries are gone through (%s)" % m)
        if (call["trait"] or "").startswith("core::ops::function::Fn") and m.startswith("call") and "{closure" not in name and args and val(eng, st, args[0]) == self.sink:
            a = val(eng, st, args[1])
            x = a[1][0] if a[0] == "tup" else a
            c = self.g(st, "cur")
            if self.g(st, "enough") is not None: self.note(eng, "enough", "goes on although the sink has seen enough")
            if c is None or c[0] != "adt" or c[2] != 1 or unref(eng, st, x) != unref(eng, st, c[3][0]): self.note(eng, "other", "hands the sink something other than the next entry")
            else:
                self.s(st, "r", self.g(st, "k")); self.s(st, "cur", MON(0))
            s1, s2 = st.copy(), st
            self.s(s1, "enough", MON(1))
            return [(s1, TRUE), (s2, FALSE)]
        return IxCk.intercept(self, eng, st, name, args, call)


def reads(S):
    F = S.F
    fn = method(F, INDEX, "process_files")
    b = Bench(F, S.M, ReadCk(F))
    b.eng.unroll = True
    e, ck = b.eng, b.ck
    ck.sink = e.fresh("sink")
    ck.values = e.app("values")
    ck.scan, ck.order = {ck.values}, [ck.values]
    outs = e.run(fn, [b.cell(e.fresh("index")), ck.sink], b.st)
    S.ctx.account(e)
    n = 0
    for s, v in outs:
        if not feasible(s): continue
        n += 1
        ck.resolve(e, s)
        ok = ck.g(s, "enough") is not None or ck.ofs(s) == ck.values and eqn(e, s, num(e.seqlen(ck.values)), ck.g(s, "k")) and eqn(e, s, ck.g(s, "r"), ck.g(s, "k")) and ck.g(s, "skipped") is None
        S.say(fn, "every entry is handed on", ok and (ck.g(s, "enough") is not None or not ck.bad), "all", "ends before every entry has been handed on")
        S.say(fn, "none is passed over", ck.g(s, "skipped") is None, "skip", "passes over an entry")
        S.say(fn, "the lock is given up", not ck.held(s), "leak", "never gives up the lock of the index")
    S.say(fn, "ends", n >= 2, "ends", "anchor missing: no end of the reading was found")
    for k, m in ck.bad: S.say(fn, "entries are handed on", False, k, m)


class NewCk(IxCk):
    watch = None

    def intercept(self, eng, st, name, args, call):
        m = call["method"]
        if name.endswith(("::Arc::new", "::Rc::new")):
            x = eng.fresh("shared")
            st.mem[("D", x[1])] = args[0]
            return [(st, ("adt", "Arc", 0, (x,)))]
        if "::Arc" in name and m in ("clone", "deref", "as_ref"):
            a = unref(eng, st, args[0])
            if a[0] == "adt" and a[1] == "Arc": return [(st, a if m == "clone" else a[3][0])]
        if name == "std::thread::spawn" or name.endswith("::spawn"):
            return [(s, eng.fresh("thread")) for s, v in eng.call_closure(st, args[0], [], call)]
        if name == self.watch:
            self.s(st, "watching", MON(1, args[0]))
            return [(st, UNIT)]
        return IxCk.intercept(self, eng, st, name, args, call)


def news(S):
    F = S.F
    fn = method(F, INDEX, "new")
    b = Bench(F, S.M, NewCk(F))
    e, ck = b.eng, b.ck
    ck.watch = F.fn(IX + "watch").path
    fs, mp = e.fresh("file_set"), e.fresh("mapper")
    a = [fs, mp] if "IndexableFileSet" in fn.locals[1][0]["s"] else [mp, fs]
    outs = [(s, v) for s, v in e.run(fn, a, b.st) if feasible(s)]
    S.ctx.account(e)
    S.say(fn, "an index is made", bool(outs), "ends", "anchor missing: FileIndex::new")
    for s, v in outs:
        w = ck.g(s, "watching")
        x = None
        if v[0] == "adt" and v[1] == INDEX:
            x = v[3][fidx(F, INDEX, "imp")]
            if x[0] == "adt" and x[1] == "Arc": x = x[3][0]
        same = w is not None and x is not None and w[3][0] == x
        if x is not None: x = unref(e, s, x)
        if x is not None and x[0] == "s": x = s.mem.get(("D", x[1]))
        S.say(fn, "the index is the one that is kept up to date", same, "watched", "the file index that is handed out is not the one that follows the events")
        ok = x is not None and x[0] == "adt" and x[1] == IMPL and x[3][fidx(F, IMPL, "file_set")] == fs and x[3][fidx(F, IMPL, "mapper")] == mp
        S.say(fn, "files and mapper are the given ones", ok, "parts", "the index works on other files or with another mapper than was asked for")
        S.say(fn, "the index starts empty", ok and x[3][fidx(F, IMPL, "data")] is not None, "empty", "the index does not start empty")


class SetCk(IxCk):
    def intercept(self, eng, st, name, args, call):
        m = call["method"]
        if name == "alloc::boxed::Box::new": return [(st, args[0])]
        if name == "std::path::Path::extension":
            p = self.same(eng, st, args[0])
            s1, s2 = st.copy(), st
            self.s(s1, "ext", MON(0)); self.s(s2, "ext", MON(1))
            return [(s1, NONE), (s2, some(eng.app("extension", p)))]
        if m in ("unwrap_or_default", "default") and "OsStr" in call["dty"]["s"]:
            a = val(eng, st, args[0]) if args else NONE
            if a[0] == "adt" and a[1] == OPTION: return [(st, a[3][0] if a[2] == 1 else ("str", ""))]
        if m in ("eq", "ne") and call["trait"] == "core::cmp::PartialEq":
            x, y = self.same(eng, st, args[0]), self.same(eng, st, args[1])
            if x[0] == "adt" and x[1] == OPTION and y[0] == "adt" and y[1] == OPTION:
                if x[2] != y[2]: return [(st, FALSE if m == "eq" else TRUE)]
                if x[2] == 1: x, y = self.same(eng, st, x[3][0]), self.same(eng, st, y[3][0])
            out = []
            if x == y: out = [(st, TRUE)]
            else:
                for s, t in eng.fork(st, eng.app("same", *sorted((x, y), key=str))): out.append((s, TRUE if t else FALSE))
            return out if m == "eq" else [(s, eng.notv(v)) for s, v in out]
        if m in ("as_ref", "to_str", "as_os_str", "to_string_lossy", "from", "into", "new", "as_encoded_bytes", "borrow") and args and ("OsStr" in name or "OsStr" in call["dty"]["s"] or name.startswith("<str")):
            x = self.same(eng, st, args[0])
            if m == "to_str": return [(st.copy(), NONE), (st, some(x))]
            return [(st, x)]
        return IxCk.intercept(self, eng, st, name, args, call)


def sets(S):
    """which files belong to the set: those with the extension"""
    F = S.F
    fn = method(F, SET, "new")
    b = Bench(F, S.M, SetCk(F))
    e, ck = b.eng, b.ck
    roots, ext, p = e.fresh("roots"), e.fresh("ext"), e.fresh("path")
    call = {"method": "call", "trait": "core::ops::function::Fn", "name": "filter", "targs": [], "dty": {"s": "bool", "k": "bool"}}
    n = 0
    for s, v in e.run(fn, [roots, ext], b.st):
        if not feasible(s): continue
        good = v[0] == "adt" and v[1] == SET and v[3][fidx(F, SET, "roots")] == roots
        S.say(fn, "the roots are the given ones", good, "roots", "looks for files somewhere else than was asked for")
        if v[0] != "adt": continue
        clo = v[3][fidx(F, SET, "filter")]
        for s2, r in e.call_closure(s, clo, [("rv", p)], call):
            for s3, t in e.fork(s2, r):
                if not feasible(s3): continue
                n += 1
                has = ck.g(s3, "ext")
                x, y = e.app("extension", p), ext
                same = e.decide(s3, e.app("same", *sorted((x, y), key=str))) if has is not None and has[2] == 1 else False
                # without an extension only the empty extension fits
                empty = e.decide(s3, e.app("same", *sorted((("str", ""), y), key=str)))
                if has is not None and has[2] == 1: S.say(fn, "files with the extension", same is not None and t == same, "filter", "takes files with another extension or leaves out files with the extension")
                elif has is None: S.say(fn, "goes by the extension", False, "other", "does not go by the extension of the path")
                else: S.say(fn, "files without extension", not t or empty is True, "noext", "takes files without extension")
    S.ctx.account(e)
    S.say(fn, "the filter is decided", n >= 2, "ends", "anchor missing: filter of the file set")


def analyse(F, M, rep, ctx):
    S = Ix(F, M, rep, ctx)
    def guarded(key, f, *a):
        try: f(*a)
        except (TooComplex, CheckError) as x: S.rep.ok(S.prop, "the index can be followed", False, "undecided:" + key, "%s: not decided: %s" % (key, x))
    guarded("change", change, S)
    guarded("watch", watcher, S)
    guarded("process_files", reads, S)
    guarded("new", news, S)
    guarded("file set", sets, S)
