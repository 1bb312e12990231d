"""Resolved call graph over the MIR of the workspace, and the locks held at each call."""
from facts import canon

GUARDS = ("MutexGuard", "RwLockReadGuard", "RwLockWriteGuard", "MappedMutexGuard", "ReentrantLockGuard")


def strip(t):
    while t["k"] in ("ref", "ptr"): t = t["to"]
    return t


class Graph:
    def __init__(self, F):
        self.F = F
        self.impls = {}             # trait method -> functions that implement it
        for i in F.impls:
            if i["trait"]:
                for it in i["items"]: self.impls.setdefault((i["trait"], it.split("::")[-1]), []).append(it)
        self._callees = {}

    def bodies(self, path):
        return self.F.dups.get(path) or ([self.F.fns[path]] if path in self.F.fns else [])

    def sites(self, fn):
        """(block index, terminator, callee info) of each call of a function body"""
        for i, b in enumerate(fn.blocks):
            if b["c"]: continue
            t = b["t"]
            if t["k"] == "call": yield i, t, (t["f"][1] if t["f"][0] == "const" and "fn" in t["f"][1] else None)

    def targets(self, c):
        """functions of the workspace a call may run; (targets, unknown code?)"""
        if c is None: return [], True
        name = canon(c["resolved"] or c["fn"])
        if name in self.F.fns and not (c["trait"] and c["rkind"] != "item" and self.impls.get((canon(c["trait"]), c["name"]))): return [name], False
        if c["trait"]:
            tr = canon(c["trait"])
            if tr in ("core::ops::function::Fn", "core::ops::function::FnMut", "core::ops::function::FnOnce"): return [], c["resolved"] is None
            ts = [x for x in self.impls.get((tr, c["name"]), []) if x in self.F.fns]
            if c["resolved"] is None or c["rkind"] == "virtual":
                return ts + ([name] if name in self.F.fns else []), False
            return [], False
        return [], False

    def callees(self, path):
        """functions that may run when path runs: called, or closures and function values made there"""
        r = self._callees.get(path)
        if r is not None: return r
        r = set()
        for fn in self.bodies(path):
            for body in [fn] + fn.promoted:
                for _, t, c in self.sites(body):
                    for x in self.targets(c)[0]: r.add(x)
                    for a in t["a"]: self.consts(a, r)
                    if c is not None:
                        # a generic library function that is given a type runs its Drop, Iterator, Fn ... impls
                        for a in c["args"]: self.closure(a, r)
                for b in body.blocks:
                    for s in b["s"]:
                        if s[0] == "=": self.rvalue(s[2], r)
        self._callees[path] = r
        return r

    def closure(self, t, r):
        if t["k"] in ("closure", "fndef"):
            d = canon(t["def"])
            if d in self.F.fns: r.add(d)

    def consts(self, o, r):
        if o[0] == "const" and "fn" in o[1]:
            for x in self.targets(o[1])[0]: r.add(x)

    def rvalue(self, rv, r):
        if rv[0] == "closure":
            d = canon(rv[1])
            if d in self.F.fns: r.add(d)
        for o in rv[1:]:
            if isinstance(o, list) and o and o[0] == "const": self.consts(o, r)
            elif isinstance(o, list):
                for p in o:
                    if isinstance(p, list) and p and p[0] == "const": self.consts(p, r)

    def reach(self, roots, stop=()):
        seen, todo = set(), [r for r in roots]
        while todo:
            x = todo.pop()
            if x in seen or x in stop: continue
            seen.add(x)
            todo.extend(self.callees(x))
        return seen

    # ------------------------------------------------------------ locks
    def acquires(self, c):
        """is this call the acquisition of a lock?"""
        if c is None: return False
        n = canon(c["resolved"] or c["fn"])
        return n.startswith("std::sync::") and c["name"] in ("lock", "try_lock", "read", "write", "try_read", "try_write") and ("Mutex" in n or "RwLock" in n)

    def lock_class(self, t):
        """what a lock protects, from the type of its receiver"""
        x = strip(t["aty"][0])
        return x["s"]

    def held(self, fn):
        """for each call site: the guards (locals) that are live when it runs"""
        g = {i for i, (t, _) in enumerate(fn.locals) if any(k in t["s"] for k in GUARDS) and t["k"] not in ("ref", "ptr")}
        if not g: return {}
        live = {0: frozenset()}
        todo = [0]

        def moved(o):
            return o[1]["l"] if o[0] == "move" and o[1]["l"] in g else None

        def ops(rv):
            for x in rv[1:]:
                if isinstance(x, list) and x and x[0] in ("copy", "move", "const"): yield x
                elif isinstance(x, list):
                    for y in x:
                        if isinstance(y, list) and y and y[0] in ("copy", "move", "const"): yield y
        at = {}
        while todo:
            i = todo.pop()
            cur = set(live[i])
            b = fn.blocks[i]
            for s in b["s"]:
                if s[0] == "=":
                    for o in ops(s[2]):
                        if moved(o) is not None: cur.discard(moved(o))
                    if s[1]["l"] in g: cur.add(s[1]["l"])
                elif s[0] == "dead": cur.discard(s[1])
            t = b["t"]
            succ = []
            if t["k"] == "call":
                for o in t["a"]:
                    if moved(o) is not None: cur.discard(moved(o))
                at[i] = at.get(i, frozenset()) | frozenset(cur)
                if t["d"]["l"] in g: cur.add(t["d"]["l"])
                succ = [t["t"]]
            elif t["k"] == "drop":
                if t["p"]["l"] in g and not t["p"]["p"]: cur.discard(t["p"]["l"])
                succ = [t["t"]]
            elif t["k"] == "switch": succ = [x[1] for x in t["v"]] + [t["o"]]
            elif "t" in t: succ = [t["t"]]
            for x in succ:
                if x is None: continue
                n = live.get(x, None)
                m = frozenset(cur) if n is None else n | frozenset(cur)
                if n != m: live[x] = m; todo.append(x)
        return at

    def guard_class(self, fn, l):
        return fn.locals[l][0]["s"]
