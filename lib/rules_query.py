"""C18: the memoisation protocol of grammar analysis, its locks, and the queries' dependency graph."""
import re
from absint import *
from absint import OPTION
from facts import CheckError, canon
from builtins_rs import val, madt, NONE, some
from rules_text import Bench, Rec
from rules_search import MON, eqn, feasible
from callgraph import Graph
import linear as L

DBM = "lang_fall::analysis::db::"
DB = DBM + "DB"
ONCE = DBM + "OnceQExecutor"
QEXEC = DBM + "QExecutor"
QUERY = DBM + "Query"
EXECUTE = "<Q as lang_fall::analysis::db::QExecutor<'f>>::execute"
RESULT = "core::result::Result"
ENTRY = "std::collections::hash::map::Entry"


def content(s):
    """the type a lock or guard protects, without generic arguments where it is a map"""
    m = re.search(r"(?:Mutex|RwLock|MutexGuard|RwLockReadGuard|RwLockWriteGuard)<(?:'\w+, )?(.*)>$", s)
    x = m.group(1) if m else s
    if "hash::map::HashMap<" in x.split(",")[0] or x.startswith("std::collections"): return "memo table"
    return x


class ExecCk(Rec):
    """ghosts: held/<lock> while a lock is held, known = what the table says about the key in the current
    critical section (0 unknown, 1 present, 2 absent), mine = the answer was put there in this section"""
    def __init__(self):
        Rec.__init__(self)
        self.bad = []
        self.tick = 0
        self.cache = self.diag = self.key = self.value = None

    def note(self, eng, key, msg):
        if not eng.quiet and (key, msg) not in self.bad: self.bad.append((key, msg))

    def g(self, st, k, d=0):
        v = st.mem.get(("G", k))
        return v[2] if v is not None else d

    def s(self, st, k, v): st.mem[("G", k)] = MON(v)

    def locks(self, st): return [k[1][5:] for k, v in st.mem.items() if k[0] == "G" and isinstance(k[1], str) and k[1].startswith("held/") and v[2]]

    def which(self, eng, st, x):
        v = val(eng, st, x)
        y = eng.struct(v) if v[0] == "s" else None
        s = eng.show(v)
        return "memo" if y and y[0] == "app" and y[1] == "cache" else "diagnostics" if "diagnostics" in s else None

    def guard(self, eng, st, x):
        for _ in range(6):
            if x[0] in ("ref", "rv"): x = eng.load(st, x)
            else: break
        return x[3][0] if x[0] == "adt" and x[1] == "Guard" else None

    def find_guard(self, eng, st, v, out, depth=0):
        if v[0] == "adt":
            if v[1] == "Guard": out.append(v[3][0])
            elif depth < 4:
                for x in v[3]: self.find_guard(eng, st, x, out, depth + 1)
        elif v[0] == "tup" and depth < 4:
            for x in v[1]: self.find_guard(eng, st, x, out, depth + 1)

    def release(self, eng, st, v):
        out = []
        self.find_guard(eng, st, v, out)
        for l in out:
            nm = l[1]
            if not self.g(st, "held/" + nm): self.note(eng, "release", "releases a lock twice")
            self.s(st, "held/" + nm, 0)
            if nm == "memo":
                if self.g(st, "mine") and self.g(st, "reported") != 1: self.note(eng, "report", "publishes an answer without having reported its diagnostics")
                self.s(st, "known", 0)

    def on_drop(self, eng, st, pv, ty, fn, span):
        if "Guard" not in ty["s"]: return
        v = eng.load(st, pv)
        self.release(eng, st, v)

    def same_key(self, eng, st, x):
        v = val(eng, st, x)
        return v == self.key

    def intercept(self, eng, st, name, args, call):
        m = call["method"]
        if name.startswith("std::sync::") and m in ("lock", "write", "read") and ("Mutex" in name or "RwLock" in name):
            w = self.which(eng, st, args[0])
            if w is None:
                self.note(eng, "lock", "takes a lock that is neither the query's table nor the diagnostics"); w = "other"
            if self.g(st, "held/" + w): self.note(eng, "deadlock", "takes the %s lock while holding it" % w)
            if w == "memo" and self.locks(st): self.note(eng, "order", "takes the table's lock while holding another lock")
            self.s(st, "held/" + w, 1)
            if w == "memo": self.s(st, "known", 0)
            return [(st, ("adt", RESULT, 0, (("adt", "Guard", 0, (("lock", w),)),)))]
        if name in ("core::mem::drop",):
            self.release(eng, st, args[0]); return [(st, UNIT)]
        if name == "core::mem::forget":
            out = []; self.find_guard(eng, st, args[0], out)
            if out: self.note(eng, "forget", "never releases a lock")
            return [(st, UNIT)]
        if m in ("deref", "deref_mut") and "Guard" in name:
            w = self.guard(eng, st, args[0])
            if w is None: return None
            return [(st, ("rv", ("adt", "Locked", 0, (w,))))]
        if name == DBM + "QueryCache::get_cache" or m == "get_cache": return [(st, eng.app("cache", val(eng, st, args[0])))]
        if m == "clone" and call["trait"] == "core::clone::Clone": return [(st, val(eng, st, args[0]))]
        if name.startswith(ONCE + "::execute") or (call["trait"] == ONCE and m == "execute"):
            if self.locks(st): self.note(eng, "held", "runs a query while holding a lock")
            if self.g(st, "ran"): self.note(eng, "twice", "computes the answer twice")
            if not self.same_key(eng, st, args[0]): self.note(eng, "key", "computes something other than the query asked")
            self.s(st, "ran", 1)
            sink = val(eng, st, args[2])
            self.sinkcheck(eng, st, args[2])
            return [(st, self.value)]
        if name.startswith(QUERY) or (call["trait"] == QEXEC and m == "execute"):
            if self.locks(st): self.note(eng, "held", "asks a query while holding a lock")
        if "DiagnosticSink" in name and m == "new":
            return [(st, ("adt", "Sink", 0, (args[0],)))]
        if "Locked" in str(args[:1]) or (args and self.locked(eng, st, args[0])):
            r = self.table(eng, st, name, m, args)
            if r is not None: return r
        v = val(eng, st, args[0]) if args else None
        if v is not None and v[0] == "adt" and v[1] == "Slot":
            if m in ("get", "get_mut", "into_mut"): return [(st, v[3][0])]
            if m == "insert" and v[2] == 0:
                return self.insert(eng, st, args[1], True)
            if m == "insert":
                self.note(eng, "overwrite", "replaces an answer that was given before"); return [(st, UNIT)]
            if m == "insert_entry" and v[2] == 0:
                self.insert(eng, st, args[1], True)
                return [(st, ("adt", "Slot", 1, (self.value,)))]
        if v is not None and v[0] == "adt" and v[1] == ENTRY:
            if m in ("or_insert", "or_insert_with"):
                x = v[3][0]
                if v[2] == 0: return [(st, x[3][0])]
                if m == "or_insert": return self.insert(eng, st, args[1], True)
        if m in ("cloned", "copied") and "Option" in name: return [(st, val(eng, st, args[0]))]
        if m == "push" and args and self.locked(eng, st, args[0]) == "diagnostics": return self.extend(eng, st, ("seq", (("it", args[1]),)))
        if m == "extend" and args and self.locked(eng, st, args[0]) == "diagnostics": return self.extend(eng, st, args[1])
        if m == "append" and args and self.locked(eng, st, args[0]) == "diagnostics": return self.extend(eng, st, args[1])
        return None

    def locked(self, eng, st, x):
        for _ in range(6):
            if x[0] in ("ref", "rv"): x = eng.load(st, x)
            else: break
        return x[3][0][1] if x[0] == "adt" and x[1] == "Locked" else None

    def sinkcheck(self, eng, st, x):
        v = val(eng, st, x)
        if v[0] != "adt" or v[1] != "Sink": self.note(eng, "sink", "does not hand the query a sink for its diagnostics"); return
        r = v[3][0]
        t = eng.load(st, r)
        if tuple(eng.seq(t)): self.note(eng, "sink", "hands the query a sink that is not empty")
        while r[0] in ("ref", "rv") and r[0] == "ref" and eng.load(st, r)[0] == "ref": r = eng.load(st, r)
        eng.store(st, r, ("seq", (("it", self.diags),)))

    def extend(self, eng, st, x):
        v = eng.load(st, x) if x[0] in ("ref", "rv") else x
        v = val(eng, st, v)
        xs = tuple(eng.seq(v)) if v[0] in ("seq", "arr") else None
        if v[0] == "adt":
            for y in v[3]:
                y = val(eng, st, y)
                if y[0] in ("seq", "arr"): xs = tuple(eng.seq(y))
        if xs == (): return [(st, UNIT)]
        if xs != (("it", self.diags),): self.note(eng, "report", "reports something other than the query's own diagnostics")
        n = self.g(st, "reported")
        if n: self.note(eng, "report", "reports the diagnostics of a query twice")
        if not self.g(st, "held/memo") or self.g(st, "known") != 2 and not self.g(st, "mine"):
            self.note(eng, "report", "reports diagnostics although another thread may have reported them")
        self.s(st, "reported", 1)
        return [(st, UNIT)]

    def insert(self, eng, st, v, vacant):
        if not self.g(st, "held/memo"): self.note(eng, "insert", "changes the table without its lock")
        if val(eng, st, v) != self.value: self.note(eng, "insert", "stores something other than the answer that was computed")
        if self.g(st, "known") != 2: self.note(eng, "overwrite", "may replace an answer that was given before")
        self.s(st, "known", 1); self.s(st, "mine", 1); self.s(st, "inserted", 1)
        return [(st, self.value)]

    def table(self, eng, st, name, m, args):
        w = self.locked(eng, st, args[0])
        if w != "memo": return None
        if not self.g(st, "held/memo"): self.note(eng, "table", "uses the table without its lock")

        def cases():
            k = self.g(st, "known")
            out = []
            for t in ((1,) if k == 1 else (2,) if k == 2 else (1, 2)):
                s2 = st.copy(); self.s(s2, "known", t); out.append((s2, t))
            return out

        def there(s): return self.value if self.g(s, "mine") else self.cached
        if m in ("get", "contains_key", "get_mut"):
            if not self.same_key(eng, st, args[1]): self.note(eng, "key", "looks up another query")
            return [(s, (TRUE if t == 1 else FALSE) if m == "contains_key" else (some(there(s)) if t == 1 else NONE)) for s, t in cases()]
        if m == "entry":
            if not self.same_key(eng, st, args[1]): self.note(eng, "key", "stores the answer under another query")
            return [(s, ("adt", ENTRY, 0 if t == 1 else 1, (("adt", "Slot", 1 if t == 1 else 0, (there(s),)),))) for s, t in cases()]
        if m == "insert":
            if not self.same_key(eng, st, args[1]): self.note(eng, "key", "stores the answer under another query")
            self.insert(eng, st, args[2], False)
            return [(st, NONE)]
        if m in ("remove", "clear", "retain", "drain"):
            self.note(eng, "remove", "forgets answers"); return [(st, NONE)]
        return None


def protocol(F, M, rep, ctx):
    fn = F.fn(EXECUTE)
    b = Bench(F, M, ExecCk())
    e, ck = b.eng, b.ck
    q, db = e.fresh("query"), e.fresh("db")
    ck.key, ck.value, ck.cached, ck.diags = q, e.fresh("answer"), e.fresh("cached"), e.fresh("diagnostics of the query")
    outs = e.run(fn, [q, db], b.st)
    ok = lambda what, cond, key, msg: rep.ok("C18", "execute: " + what, cond, "execute:" + key, "execute " + msg if not callable(msg) else msg)
    ok("outcomes", len(outs) >= 3, "outs", "does not distinguish a known answer, a new one, and one that another thread gave meanwhile")
    seen = set()
    for st, v in outs:
        v = val(e, st, v)
        ran, ins = ck.g(st, "ran"), ck.g(st, "inserted")
        ok("no lock is kept", not ck.locks(st), "leak", "keeps a lock when it returns")
        if ran and ins:
            ok("new answer", v == ck.value, "new", "returns something other than the answer it stored")
            ok("its diagnostics are reported once", ck.g(st, "reported") == 1, "report1", "does not report the diagnostics of a new answer")
            seen.add("new")
        else:
            ok("known answer", v == ck.cached, "old", "returns something other than the answer that was stored first")
            ok("its diagnostics are not reported again", not ck.g(st, "reported"), "report0", "reports diagnostics although the answer was there")
            seen.add("raced" if ran else "hit")
    for k in ("new", "hit", "raced"): ok(k, k in seen, "case:" + k, "lacks the case `%s`" % k)
    for key, msg in ck.bad: ok(msg, False, key, msg)
    for st, p, m in ck.panics: ok("does not panic", not feasible(st), "panic", "may panic: " + m)
    ctx.account(e)


def scan_locks(F, rep, ctx, prop, crates, what):
    """no unknown code, query or conflicting lock while a lock is held"""
    G = Graph(F)
    takes = {}                       # function -> lock classes it takes itself
    for f in F.in_crate(*crates):
        for _, t, c in G.sites(f):
            if G.acquires(c): takes.setdefault(f.path, set()).add(content(G.lock_class(t)))
    reach = {}

    def may(path):
        if path not in reach: reach[path] = {(c, p) for p in G.reach([path]) for c in takes.get(p, ())}
        return reach[path]
    edges = {}
    nsites = 0
    for f in F.in_crate(*crates):
        held = G.held(f)
        for i, t, c in G.sites(f):
            ls = held.get(i)
            if not ls: continue
            hs = {content(G.guard_class(f, l)) for l in ls}
            nsites += 1
            if G.acquires(c):
                for h in hs: edges.setdefault((h, content(G.lock_class(t))), (f.path, f.path))
                continue
            ts, unknown = G.targets(c)
            ts = set(ts)
            if c is not None:
                for a in c["args"]: G.closure(a, ts)
            nm = canon(c["resolved"] or c["fn"]) if c else "<indirect>"
            yield_unknown = unknown and prop == "C18"
            rep.ok(prop, "%s: %s under a lock" % (f.path, nm), not yield_unknown, "held:%s:%s" % (f.path, nm), "%s calls unknown code (%s) while it holds the lock of %s" % (f.path, nm, ", ".join(sorted(hs))))
            for x in ts:
                for cl, p in may(x):
                    for h in hs: edges.setdefault((h, cl), (f.path, p))
    # the order of locks has no cycle
    adj = {}
    for (a, b2) in edges: adj.setdefault(a, set()).add(b2)

    def cyc(a):
        seen, todo = set(), list(adj.get(a, ()))
        while todo:
            x = todo.pop()
            if x == a: return True
            if x in seen: continue
            seen.add(x); todo.extend(adj.get(x, ()))
        return False
    for (a, b2), (f, p) in sorted(edges.items()):
        rep.ok(prop, "lock order %s -> %s (%s)" % (a, b2, f), not cyc(a), "order:%s:%s" % (a, b2), "%s holds the lock of %s while %s takes the lock of %s, which can deadlock" % (f, a, p, b2))
    rep.ok(prop, "%s: locks found" % what, bool(takes), "locks", "anchor missing: no lock is taken in %s" % what)
    for p in sorted(takes): rep.ok(prop, "locks of %s seen" % p, True, "", "")
    ctx.count("calls_under_a_lock", nsites)
    return G


def queries(F, rep, ctx, G):
    keys = {}
    for i in F.impls:
        if i["trait"] == QUERY: keys[canon(i["self"])] = i
    rep.ok("C18", "queries found", len(keys) >= 11, "queries", "anchor missing: %d queries found" % len(keys))
    roots = {}
    for i in F.impls:
        if i["trait"] in (ONCE, QEXEC):
            for it in i["items"]:
                if it.split("::")[-1] == "execute" and canon(i["self"]) in keys: roots[canon(i["self"])] = it
    for k in keys: rep.ok("C18", "%s has an implementation" % k, k in roots, "impl:" + k, "query %s has no implementation" % k)
    get = DB + "::get"
    stop = {get, EXECUTE} | {f.path for f in F.in_crate("lang_fall") if f.path.endswith("::get_cache")}

    def asked(path):
        out = set()
        for p in G.reach([path], stop):
            for fn in G.bodies(p):
                for _, t, c in G.sites(fn):
                    if c is None: continue
                    n = canon(c["resolved"] or c["fn"])
                    if n == get or (c["trait"] and canon(c["trait"]) in (QEXEC, ONCE)):
                        for a in c["args"]:
                            if a["k"] == "adt" and canon(a["s"]) in keys or a["k"] == "adt" and canon(a["def"]) in {x.split("<")[0] for x in keys}: out.add((canon(a["def"]), p))
        return out
    deps = {}
    byname = {k.split("<")[0]: k for k in keys}
    for k, r in roots.items():
        deps[k] = {(byname[d], p) for d, p in asked(r) if d in byname}
        ctx.count("query_dependencies", len({d for d, _ in deps[k]}))

    def cyc(k):
        seen, todo = set(), [(d, p) for d, p in deps.get(k, ())]
        while todo:
            x, p = todo.pop()
            if x == k: return p
            if x in seen: continue
            seen.add(x); todo.extend(deps.get(x, ()))
        return None
    for k in sorted(roots):
        c = cyc(k)
        rep.ok("C18", "%s does not depend on itself" % k, c is None, "cycle:" + k, "query %s asks, through %s, a query that depends on it" % (k, c))
    # keys are compared as a whole
    need = set(byname)
    todo = list(need)
    while todo:
        a = F.adts.get(todo.pop())
        for v in a["variants"] if a else ():
            for f in v["fields"]:
                for k, p, frz, loc in f["parts"]:
                    p = canon(p)
                    if k == "adt" and p in F.adts and p not in need and F.adts[p]["crate"].startswith("lang_fall"): need.add(p); todo.append(p)
    n = 0
    for i in F.impls:
        if i["trait"] in ("core::cmp::PartialEq", "core::hash::Hash", "core::clone::Clone") and canon(i["self"]).split("<")[0] in need:
            n += 1
            rep.ok("C18", "%s for %s compares all of it" % (i["trait"], i["self"]), i["expanded"], "key:%s:%s" % (i["trait"], i["self"]), "%s of query key %s is written by hand (%s): two different queries may share an answer" % (i["trait"].split("::")[-1], i["self"], i["span"]))
    rep.ok("C18", "comparisons of query keys found", n >= 20, "keys", "anchor missing: comparisons of query keys")
    # a table is reached only through execute
    callers = {}
    for f in F.in_crate("lang_fall"):
        for x in G.callees(f.path): callers.setdefault(x, set()).add(f.path)
    ok = {EXECUTE}
    while True:
        new = {x for x, cs in callers.items() if x not in ok and x.split("::")[0] == "lang_fall" and cs and cs - {x} <= ok and F.fns[x].vis != "Public"}
        if not new: break
        ok |= new
    for f in F.in_crate("lang_fall"):
        for _, t, c in G.sites(f):
            n_ = canon(c["resolved"] or c["fn"]) if c else ""
            if n_.endswith("::get_cache"): rep.ok("C18", "%s uses the tables" % f.path, f.path in ok, "access:" + f.path, "%s uses a memo table beside the protocol" % f.path)


def analyse(F, M, rep, ctx):
    protocol(F, M, rep, ctx)
    G = scan_locks(F, rep, ctx, "C18", ("lang_fall", "lang_fall_syntax", "fall_tree", "fall_editor", "fall_parse", "fall_text"), "grammar analysis and trees")
    queries(F, rep, ctx, G)
