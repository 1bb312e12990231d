"""C21: what the grammar compiler and the diagnostics put out is not taken from unordered collections, clocks or addresses:
a who-may-iterate rule with a small flow analysis, over the call graph from the compiler, the diagnostics and the parser."""
import re
from facts import CheckError, canon
from callgraph import Graph

HASHC = re.compile(r"\b(?:std::collections::hash::(?:map::HashMap|set::HashSet)|hashbrown::(?:map::HashMap|set::HashSet))\b")
HASHI = re.compile(r"\b(?:std::collections::hash|hashbrown)::(?:map|set)::(?:Iter|IterMut|IntoIter|IntoKeys|IntoValues|Keys|Values|ValuesMut|Drain|ExtractIf|Union|Intersection|Difference|SymmetricDifference)\b")
BTREE = re.compile(r"^(?:std::collections::hash::(?:map::HashMap|set::HashSet)|alloc::collections::btree::(?:map::BTreeMap|set::BTreeSet)|hashbrown::(?:map::HashMap|set::HashSet)|alloc::collections::binary_heap::BinaryHeap)\b")
# adaptors whose items do not depend on the order of what they adapt
PURE = {"map", "filter", "filter_map", "flat_map", "flatten", "cloned", "copied", "by_ref", "into_iter", "iter", "chain", "inspect", "fuse", "size_hint", "clone", "borrow"}
# consumers whose result does not depend on the order
FOLD = {"count", "len", "is_empty", "any", "all", "sum", "product", "min", "max", "eq_unordered", "sorted", "sorted_unstable", "counts", "all_unique", "into_grouping_map"}
MAKE = {"iter", "iter_mut", "keys", "values", "values_mut", "into_keys", "into_values", "union", "intersection", "difference", "symmetric_difference", "into_iter"}
LOOK = {"new", "with_capacity", "default", "get", "get_mut", "contains", "contains_key", "get_key_value", "insert", "remove", "entry", "len", "is_empty", "clear", "reserve", "replace", "take", "remove_entry",
        "is_subset", "is_superset", "is_disjoint", "shrink_to_fit", "capacity", "get_or_insert_with", "or_insert", "or_insert_with", "or_default", "and_modify", "key", "into_mut", "get_mut", "insert_entry", "or_insert_with_key", "try_insert", "extend"}
# effects a loop over an unordered collection may have: on other collections that do not keep the order
QUIET = {"insert", "contains", "contains_key", "get", "entry", "or_insert", "or_insert_with", "or_default", "and_modify", "remove", "len", "is_empty", "eq", "ne", "cmp", "partial_cmp", "lt", "gt", "le", "ge", "clone", "deref", "deref_mut", "as_ref", "as_str", "borrow", "index", "next", "into_iter", "max", "min", "not"}
CLOCK = re.compile(r"^(?:std|core)::time::(?:Instant|SystemTime)::|^std::time::")
AMBIENT = re.compile(r"^(?:rand|getrandom|fastrand|uuid|chrono|num_cpus)::|^std::thread::|^std::env::|^std::process::|^std::fs::|^std::hash::random::|^std::collections::hash_map::RandomState|^std::net::|^core::ptr::const_ptr::addr|^core::ptr::hash|^core::fmt::rt::Argument::new_pointer|::RandomState(?:::| as )")
METRICS = "fall_tree::metrics::"
WRITES = {"record", "record_time", "measure_time", "new", "default"}
ROOTS = ["fall_gen::generate::generate", "lang_fall::analysis::Analysis::collect_all_diagnostics", "fall_tree::lang::Language::parse", "fall_tree::lang::Language::reparse"]


def strip(t):
    while t["k"] in ("ref", "ptr"): t = t["to"]
    return t


class Order:
    def __init__(self, F, rep, ctx):
        self.F, self.rep, self.ctx = F, rep, ctx
        self.g = Graph(F)
        self.memo = {}
        self.derived = {(canon(i["trait"]).split("::")[-1], canon(i["self"]).split("<")[0]) for i in F.impls if i["trait"] and i.get("expanded")}

    def inside(self, s, seen=()):
        """does a value of the type contain an unordered collection (through fields of types whose formatting is derived)?"""
        if HASHC.search(s) or HASHI.search(s): return True
        for d in set(re.findall(r"[A-Za-z_][\w]*(?:::[\w]+)+", canon(s))):
            if d in seen or d not in self.F.adts: continue
            if d not in self.memo:
                self.memo[d] = False
                a = self.F.adts[d]
                self.memo[d] = any(self.inside(f["ty"]["s"], seen + (d,)) for v in a["variants"] for f in v["fields"])
            if self.memo[d]: return True
        return False

    def pure(self, u, f):
        """does the call only compute?"""
        if any(a["s"].startswith("&mut") for a in u["aty"]): return False
        name = canon(f["resolved"] or f["fn"])
        if name.startswith(("std::", "core::sync")) or AMBIENT.search(name): return False
        if f["resolved"] is None: return False
        if name not in self.F.fns: return True
        return not any(self.g.acquires(k) or k is not None and canon(k["fn"]).startswith("std::io") for q in self.g.reach([name]) for b in self.g.bodies(q) for _, _, k in self.g.sites(b))

    def ok(self, what, cond, key, msg): self.rep.ok("C21", what, cond, key, msg)


def local(o): return o[1]["l"] if o[0] in ("copy", "move") else None


def places(fn):
    """(block, index or None, kind, set of locals mentioned, the statement) of every statement and terminator"""
    def walk(x, out):
        if isinstance(x, dict):
            if "l" in x and "p" in x: out.add(x["l"])
            for v in x.values(): walk(v, out)
        elif isinstance(x, list):
            for v in x: walk(v, out)
    for i, b in enumerate(fn.blocks):
        for j, s in enumerate(b["s"]):
            if s[0] in ("live", "dead"): continue
            m = set(); walk(s, m)
            yield i, j, m, s
        m = set(); walk(b["t"], m)
        yield i, None, m, b["t"]


def succs(t):
    if t["k"] == "switch": return [x[1] for x in t["v"]] + [t["o"]]
    return [t["t"]] if t.get("t") is not None else []


def reachable(fn, start, avoid=None):
    seen, todo = set(), [start]
    while todo:
        i = todo.pop()
        if i in seen or i is None or i == avoid: continue
        seen.add(i)
        todo += succs(fn.blocks[i]["t"])
    return seen


def loop_of(fn, i):
    """blocks of the loop the block stands in"""
    ahead = set()
    for s in succs(fn.blocks[i]["t"]): ahead |= reachable(fn, s)
    return {x for x in ahead if i in reachable(fn, x)} if i in ahead else set()


def sorted_before_use(fn, i, t):
    """is the list made here put in order before it is used for anything else?"""
    mine = {t["d"]["l"]}
    if t["d"]["p"]: return False
    chain = True
    # follow moves and borrows
    sort = None
    grow = True
    while grow:
        grow = False
        for b, j, m, s in places(fn):
            if not m & mine: continue
            if j is not None and s[0] == "=" and not s[1]["p"]:
                rv = s[2]
                if rv[0] in ("use", "ref", "cast") and s[1]["l"] not in mine and any(isinstance(x, (list, dict)) and str(x).find("'l': %d," % q) >= 0 for x in rv[1:] for q in mine): mine.add(s[1]["l"]); grow = True
            if j is None and s["k"] == "call" and s["f"][0] == "const" and "fn" in s["f"][1]:
                n = s["f"][1]["name"]
                if n in ("deref_mut", "as_mut_slice", "borrow_mut") and s["d"]["l"] not in mine and any(local(a) in mine for a in s["a"]): mine.add(s["d"]["l"]); grow = True
    for b, j, m, s in places(fn):
        if j is None and s["k"] == "call" and s["f"][0] == "const" and "fn" in s["f"][1] and s["f"][1]["name"] in ("sort", "sort_unstable") and any(local(a) in mine for a in s["a"]): sort = b
    if sort is None: return False
    before = reachable(fn, t["t"], avoid=sort)
    for b, j, m, s in places(fn):
        if b not in before or not m & mine: continue
        if j is not None and s[0] == "=" and s[2][0] in ("use", "ref", "cast") and s[1]["l"] in mine: continue
        if j is None and s["k"] == "call" and s["f"][0] == "const" and "fn" in s["f"][1] and s["f"][1]["name"] in ("deref_mut", "as_mut_slice", "borrow_mut"): continue
        if j is None and s["k"] in ("drop", "goto"): continue
        if j is None and s is t: continue
        return False
    return True


def site(S, fn, i, t, c):
    """why the call makes something depend on the order of an unordered collection, or None"""
    F = S.F
    aty = [a["s"] for a in t["aty"]]
    dty = t["dty"]["s"]
    targs = [a["s"] for a in c["args"]] if c else []
    if not any(HASHC.search(x) or HASHI.search(x) for x in aty + targs + [dty]) and not (c and c["args"] and any(S.inside(x) for x in targs)): return None
    if c is None: return "hands an unordered collection to unknown code" if any(HASHI.search(x) for x in aty) else None
    name = canon(c["resolved"] or c["fn"])
    m = c["name"]
    tr = canon(c["trait"]) if c["trait"] else ""
    S.ctx.count("uses of unordered collections")
    first = aty[0] if aty else ""
    if name.startswith("core::fmt::rt::Argument::new_"):
        return "formats an unordered collection" if any(S.inside(x) for x in targs) else None
    if re.search(r"(?:^|::)serde(?:_json)?::|^serde|^tera::", name) or "Serialize" in tr:
        return "serialises an unordered collection" if any(S.inside(x) for x in targs + aty) else None
    direct = [x for x in aty + targs if HASHC.search(x) or HASHI.search(x)]
    if not direct and not HASHC.search(dty) and not HASHI.search(dty): return None
    over = [x for x in aty + targs if HASHI.search(x)]
    recv = t["aty"][0] if t["aty"] else None
    if recv is not None and m == "into_iter" and HASHC.match(canon(strip(recv)["s"])): return None       # what is done with it is looked at there
    if "::hash::" in name.split(" as ")[0] and not HASHI.search(name.split(" as ")[0]) or name.startswith("hashbrown::"):
        if m in MAKE or m in LOOK and (m != "extend" or True): return None
        if tr in ("core::clone::Clone", "core::cmp::PartialEq", "core::default::Default", "core::ops::index::Index", "core::iter::traits::collect::Extend", "core::iter::traits::collect::FromIterator"): return None
        if m in ("retain",): return None if quiet_closures(S, t, c) else "lets code with effects run in the order of an unordered collection"
        return "uses %s of an unordered collection" % m
    if not over: 
        if name in F.fns and any(HASHC.search(x) for x in targs) and c["rkind"] == "item": return None if not generic_iter(S, name) else "hands an unordered collection to generic code"
        return None
    # an iterator over an unordered collection is used
    if m == "next":
        lp = loop_of(fn, i)
        if not lp: return "takes the first of an unordered collection"
        for b in lp:
            u = fn.blocks[b]["t"]
            if u["k"] != "call": continue
            f = u["f"][1] if u["f"][0] == "const" and "fn" in u["f"][1] else None
            if f is None: return "goes through an unordered collection, calling unknown code"
            if f["name"] not in QUIET and not S.pure(u, f): return "goes through an unordered collection, calling %s" % f["name"]
            if f["name"] == "insert" and not BTREE.match(canon(strip(u["aty"][0])["s"])): return "goes through an unordered collection, calling insert"
        outside = {l for b, j, ls, _ in places(fn) if b not in lp for l in ls}
        for b, j, ls, st in places(fn):
            if b in lp and j is not None and st[0] == "=" and st[1]["l"] in outside and st[1]["l"] != 0 and fn.locals[st[1]["l"]][0]["k"] not in ("int", "bool", "ref", "tuple") and fn.locals[st[1]["l"]][1]: return "keeps an item of an unordered collection"
        out = {x for b in lp for x in succs(fn.blocks[b]["t"])} - lp
        if len(out - {x for x in out if fn.blocks[x]["t"]["k"] == "unreachable"}) > 1: return "leaves a loop over an unordered collection early"
        return None
    if HASHI.search(dty):
        if m in PURE: return None if quiet_closures(S, t, c) else "lets code with effects run in the order of an unordered collection"
        return "applies %s to an unordered collection" % m
    if m in PURE or m in ("drop",): return None
    if m in FOLD: return None if quiet_closures(S, t, c) else "lets code with effects run in the order of an unordered collection"
    if m in ("for_each",): return None if quiet_closures(S, t, c) else "goes through an unordered collection with effects"
    if m in ("collect", "from_iter", "extend"):
        target = canon(strip(t["aty"][0])["s"]) if m == "extend" else canon(dty)
        if BTREE.match(target): return None
        if m != "extend" and sorted_before_use(fn, i, t): return None
        return "puts the items of an unordered collection in a list as they come"
    return "uses %s of an unordered collection" % m


def quiet_closures(S, t, c):
    """closures given to a call only compute"""
    for a in c["args"]:
        if a["k"] not in ("closure", "fndef"): continue
        d = canon(a["def"])
        for f in S.g.bodies(d):
            if f.kind == "closure" and f.locals[1][0]["k"] == "ref" and f.locals[1][0].get("mut") and any(s[0] == "=" and s[1]["p"] and s[1]["l"] == 1 for b in f.blocks for s in b["s"]): return False
            for _, u, k in S.g.sites(f):
                if any(x["k"] == "ref" and x.get("mut") and "Iter" not in x["s"] for x in u["aty"]) and not (k and k["name"] in QUIET and BTREE.match(canon(strip(u["aty"][0])["s"]))): return False
    return True


def generic_iter(S, name):
    """does a generic function of the workspace iterate over its argument?"""
    return any(k and k["trait"] and k["name"] in ("into_iter", "next", "fmt", "serialize") and k["resolved"] is None for f in S.g.bodies(name) for _, _, k in S.g.sites(f))


def scan(S, path):
    bad = []
    for fn in S.g.bodies(path):
        for body in [fn] + list(fn.promoted):
            if HASHI.search(body.locals[0][0]["s"]) and fn.kind == "fn": bad.append(("escape", "returns an iterator over an unordered collection"))
            for i, t, c in S.g.sites(body):
                why = site(S, body, i, t, c)
                if why: bad.append(("order:" + why, why))
                if c is None: continue
                for n in {canon(c["resolved"] or c["fn"]), canon(c["fn"])}:
                    if CLOCK.match(n) and not path.lstrip("<").startswith(METRICS) and c["name"] in ("now", "elapsed", "duration_since"): bad.append(("clock", "looks at the clock")); break
                    if AMBIENT.search(n): bad.append(("ambient:" + n, "depends on %s" % n)); break
                    if n.startswith(METRICS) and c["name"] not in WRITES and not path.lstrip("<").startswith(METRICS): bad.append(("metrics", "reads back measurements")); break
                    if n.startswith("core::fmt::rt::Argument::new_") and any(a["s"].endswith("metrics::Metrics") for a in c["args"]): bad.append(("metrics", "prints measurements")); break
                    if c["trait"] and canon(c["trait"]) in ("core::cmp::Ord", "core::cmp::PartialOrd", "core::hash::Hash") and t["aty"] and t["aty"][0].get("to", {}).get("k") == "ptr": bad.append(("address", "compares or hashes addresses")); break
            for b in body.blocks:
                for s in b["s"]:
                    if s[0] != "=" or s[2][0] != "cast": continue
                    kind = s[2][1]
                    if "ExposeProvenance" in kind or "ExposeAddress" in kind: bad.append(("address", "turns an address into a number"))
                    src = s[2][2]
                    if "Unsize" in kind and local(src) is not None and not src[1]["p"] and HASHI.search(body.locals[local(src)][0]["s"]): bad.append(("escape", "hides an iterator over an unordered collection behind a trait object"))
    S.ok("%s takes nothing from unordered collections, clocks or addresses" % path, not bad, "%s:%s" % (path, bad[0][0] if bad else ""), lambda: "%s %s" % (path, bad[0][1]))


def analyse(F, M, rep, ctx):
    S = Order(F, rep, ctx)
    for r in ROOTS:
        if r not in F.fns: raise CheckError("anchor missing: " + r)
    seen = S.g.reach(ROOTS)
    for p in sorted(seen): scan(S, p)
    ctx.count("functions reached", len(seen))
    for d, a in sorted(F.adts.items()):
        if d.split("::")[0] == "indxr": continue
        bad = [f["name"] for v in a["variants"] for f in v["fields"] if HASHI.search(f["ty"]["s"])]
        S.ok("%s stores no iterator over an unordered collection" % d, not bad, "%s:iter" % d, "%s keeps an iterator over an unordered collection" % d) if bad else None
