"""C35: what the editor of Rust files answers while one types: the semicolon behind a `let` and the expansion of an expression
into a line that prints it, for an arbitrary file and offset."""
from rules_effects import *

EDITOR = "lang_rust::editor::RustEditorFile"
ANC = "fall_tree::search::ast::ancestor"


class TypeCk(EffCk):
    def intercept(self, eng, st, name, args, call):
        m = call["method"]
        if name.startswith(SEARCH + "LeafAtOffset::") and m in ("left_biased", "right_biased"):
            x = self.strof(eng, st, val(eng, st, args[0]))      # (C17)
            if x[0] == "adt": return [(st, some(x[3][0 if m == "left_biased" else -1]) if x[3] else NONE)]
        if name == NODE + "::ty":
            n = self.strof(eng, st, val(eng, st, args[0]))
            k, t = self.elem(eng, n, "children"), eng.app("kind", n)
            outs, todo = [], [st]
            for kind in self.kinds:
                rest = []
                for s1 in todo:
                    for s2, b in eng.fork(s1, eng.cmp("Eq", t, const(kind))):
                        if b: outs.append((s2, const(kind)))
                        else: rest.append(s2)
                todo = rest
            outs += [(s, t) for s in todo]
            for s, v in outs:
                if k is None:
                    self.s(s, "let", MON(v == const(self.let), n))
                    continue
                g = self.g(s, "kids")
                if g is None or g[3][0] != k[0]: g = MON(0, k[0], const(0))
                nxt = num(L.shift(aff(k[1]), 1))
                if g[2] == 0 and eqn(eng, s, g[3][1], k[1]): g = MON(1 if v in self.ends else 0, k[0], nxt)
                elif not eqn(eng, s, g[3][1], nxt): g = MON(9, k[0], const(0))
                self.s(s, "kids", g)
            return outs
        if m == "starts_with" and len(args) == 2:
            x, y = (self.strof(eng, st, val(eng, st, a)) for a in args)
            if y[0] == "i" and not y[1]: y = ("str", chr(y[2]))
            outs = []
            for s, b in eng.fork(st, eng.app("begins", x, y)):
                self.s(s, "begins", MON(b, x, y))
                outs.append((s, TRUE if b else FALSE))
            return outs
        if name == "fall_tree::node::File::text": return [(st, eng.app("ftext", self.strof(eng, st, val(eng, st, args[0]))))]
        r = EffCk.intercept(self, eng, st, name, args, call)
        if name == SEARCH + "find_leaf_at_offset":
            for s, v in r: self.s(s, "at", MON(v[2], *v[3]))
        if name == ANC and r is not None:
            outs, n, ty = [], self.strof(eng, st, val(eng, st, args[0])), tyname(call["targs"][-1]).split("::")[-1]
            for s1, v in r:
                for s2, b in self.split(eng, s1, v):
                    self.s(s2, "above:" + ty, MON(b, n, eng.app("node", v[3][0] if v[0] == "adt" else eng.fld(v, 0, "0", "Some", OPTION)) if b else n))
                    outs.append((s2, v))
            return outs
        return r

    def split(self, eng, st, v):
        """the cases of an optional value"""
        k = opt(st, v)[0]
        return [(st, k)] if k is not None else [(s, bool(b)) for s, b in eng.fork_variant(st, v, 1, 2)]


def setup(S, name, back):
    fn = S.F.fn(EDITOR + "::" + name)
    ck = TypeCk(S)
    b = Bench(S.F, S.M, ck)
    e = b.eng
    e.unroll = True
    ck.lo = fidx(S.F, RANGE, "start")
    ck.file, ck.sel = e.fresh("file"), e.fresh("selection")
    ck.seen, ck.pipe, ck.concrete, ck.apart = set(), None, True, set()
    off = e.fresh("offset")
    ck.at = num(L.shift(aff(off), -back))
    num_ = {n: k for k, n in S.syn["lang_rust_syntax"].lang.names.items()}
    for k in ("LET", "SEMI", "EQ"):
        if k not in num_: raise CheckError("anchor missing: kind %s" % k)
    ck.kinds = [num_[k] for k in ("LET", "SEMI", "EQ")]
    ck.let, ck.ends = num_["LET"], (const(num_["SEMI"]), const(num_["EQ"]))
    outs = [(s, v) for s, v in e.run(fn, [b.cell(("adt", EDITOR, 0, (ck.file,))), off], b.st) if feasible(s)]
    S.ctx.account(e)
    S.ctx.count("paths", len(outs))
    return ck, e, off, outs


def leaf(S, ck, e, st, off, back):
    """(known?, the leaf before the offset or None)"""
    if e.holds(st, L.shift(L.neg(aff(off)), back - 1)): return True, None
    g = ck.g(st, "at")
    return g is not None, g[3][0] if g is not None and g[3] else None


def above(ck, st, n, ty):
    """(is there one?, the node above of this type)"""
    g = ck.g(st, "above:" + ty)
    return (None, n) if g is None or g[3][0] != n else (g[2], g[3][1])


def space(S):
    w, back = "space behind let", 1
    ck, e, off, outs = setup(S, "after_space_typed", back)
    S.ok(w, "answers", bool(outs), "never", "never answers")
    text, seen = e.app("ftext", ck.file), set()
    for st, v in outs:
        iss, x = opt(st, v)
        S.ok(w, "answers with a text or nothing", iss is not None, "undecided", "answers neither with a text nor with nothing")
        known, n = leaf(S, ck, e, st, off, back)
        S.ok(w, "looks at the token before the space", known, "leaf", "answers without looking at the token before the space")
        if not known: continue
        why = None
        if n is None: why = "no token"
        else:
            g = ck.g(st, "let")
            islet = bool(g[2]) if g is not None and g[3][0] == n else None
            b, stmt = above(ck, st, n, "LetStmt")
            if islet is False: why = "no let"
            elif b == 0: why = "no statement"
            elif islet and b == 1:
                xs, g = e.app("children", stmt), ck.g(st, "kids")
                none = e.holds(st, L.neg(aff(num(e.seqlen(xs))))) if g is None else g[3][0] == xs and g[2] == 0 and eqn(e, st, g[3][1], num(e.seqlen(xs)))
                if g is not None and g[3][0] == xs and g[2] == 1: why = "complete"
                elif none:
                    g = ck.g(st, "begins")
                    c = bool(g[2]) if g is not None and g[3][1] == ("str", ";") and behind(e, g[3][0], text, stmt) else None
                    why = {True: "followed by one", False: "wanted"}.get(c)
        S.ok(w, "why it answers is known", why is not None, "why", "answers without finding out whether the token before the space is a let, of a let statement that has neither = nor ; and is not followed by ;")
        if why is None: continue
        seen.add(why)
        if why == "wanted": S.ok(w, "offers the semicolon", iss and pieces(e, ck, st, x) == (("str", ";"),), "wanted", "does not offer a semicolon behind the let of a statement that lacks one")
        else: S.ok(w, "offers nothing: %s" % why, iss is False, "not wanted:" + why, "offers a semicolon although it is not wanted (%s)" % why)
    for k in ("no token", "no let", "no statement", "complete", "followed by one", "wanted"): S.ok(w, "%s is reached" % k, k in seen, "reached:" + k, "no path for: %s" % k)


def expand(S):
    w, back = "expanding an expression", 2
    ck, e, off, outs = setup(S, "expand", back)
    S.ok(w, "answers", bool(outs), "never", "never answers")
    seen = set()
    for st, v in outs:
        iss, x = opt(st, v)
        S.ok(w, "answers with an edit or nothing", iss is not None, "undecided", "answers neither with an edit nor with nothing")
        known, n = leaf(S, ck, e, st, off, back)
        S.ok(w, "looks at the token before the shortcut", known, "leaf", "answers without looking at the token two bytes before the cursor")
        if not known: continue
        if n is None:
            S.ok(w, "nothing without a token", iss is False, "no token", "answers although there is no token")
            seen.add("no token"); continue
        b, stmt = above(ck, st, n, "ExprStmt")
        S.ok(w, "looks for the statement", b is not None, "statement", "answers without looking for the expression statement around the token")
        if b is None: continue
        if b == 0:
            S.ok(w, "nothing without a statement", iss is False, "no statement", "answers although there is no expression statement")
            seen.add("no statement"); continue
        t = e.app("ntext", stmt)
        if not iss:
            gone = any(z[0] == "app" and cut(e, z, t) and st.vars.get(e.app(*z[1:])[1]) == 0 for z in list(e.T.structs) if z)
            S.ok(w, "gives up only if there are no three bytes to cut off", gone or e.holds(st, L.shift(L.neg(aff(num(e.seqlen(t)))), 2)), "gives up", "gives up although the statement is long enough")
            seen.add("too short"); continue
        ops = ck.ops(st)
        good = len(ops) == 1 and ops[0][1][0] == ("str", "replace_substring")
        S.ok(w, "replaces one piece", good, "ops", "asks for something else than one replacement")
        if not good: continue
        r, new = ops[0][1][1:]
        S.ok(w, "replaces what was typed", r[0] == "adt" and num(aff(r[3][ck.lo])) == e.app("nstart", stmt) and num(aff(r[3][1 - ck.lo])) == off, "range", "does not replace the text from the begin of the statement to the cursor")
        ps = new[3][0][1]
        args = [p for p in ps if p[0] != "str"]
        want = cat((("str", 'eprintln!("'),), args[:1], (("str", ' = {:?}", '),), args[:1], (("str", ");"),))
        S.ok(w, "writes a line that prints the expression", len(args) == 2 and args[0] == args[1] and new == want, "text", lambda: "does not write a line that prints the expression: %r" % "".join(p[1] if p[0] == "str" else "~" for p in ps))
        S.ok(w, "of the text without the shortcut", bool(args) and any(cut(e, z, t) for z in inner(e, args[0])), "cut", lambda: "does not print the text of the statement without its last three bytes: %s" % (e.show(args[0]) if args else "nothing"))
        seen.add("expands")
    for k in ("no token", "no statement", "too short", "expands"): S.ok(w, "%s is reached" % k, k in seen, "reached:" + k, "no path for: %s" % k)


def inner(e, x):
    y = e.struct(x) if x[0] == "s" else None
    return [] if not y else [y] + (inner(e, ("s", y[3][1])) if y[0] == "f" else [])


def behind(e, x, text, stmt):
    """is it the text of the file from the end of the statement on?"""
    y = e.struct(x) if x[0] == "s" else None
    return bool(y) and y[:3] == ("app", "piece", text) and y[3][0] == "adt" and y[3][1].endswith("::TextSuffix") and num(aff(y[3][3][0])) == e.app("nend", stmt)


def cut(e, y, t):
    """is it the text without its last three bytes?"""
    if not y or y[0] != "app" or len(y) < 4 or y[1] not in ("core::str::get", "core::str::index", "piece"): return False
    if y[2] != t or y[3][0] != "adt" or not y[3][1].endswith("::RangeTo"): return False
    return num(aff(y[3][3][0])) == num(L.shift(aff(num(e.seqlen(t))), -3))


def analyse(F, M, rep, ctx):
    S = Effects(F, M, rep, ctx)
    S.prop = "C35"
    space(S)
    expand(S)
