"""C11/C12: the shipped grammar tables (constants of the program, found in MIR) under a dataflow analysis:
reference resolution, parameter binding along every call chain, first events, nullability, left calls."""
import json, re
from absint import *
from facts import CheckError, canon
from rules_text import Bench, Rec, fidx

PD = "fall_parse::ParserDefinition"
KINDS = {"Pub": ("ty", "body", "replaceable"), "PubReplace": ("ty", "body")}


class Bad(Exception): pass


class Grammar:
    """states are (rule number, arguments in force) - arguments are dynamically scoped, as in the engine"""
    def __init__(self, rules, nty, nctx, narg):
        self.r, self.nty, self.nctx, self.narg = rules, nty, nctx, narg
        self.problems = []
        self.free = {}

    def op(self, i):
        e = self.r[i]
        if isinstance(e, str): return e, None
        (k, v), = e.items()
        return k, v

    def bad(self, kind, i, msg):
        t = (kind, i, msg)
        if t not in self.problems: self.problems.append(t)

    # children that are rule references, static
    def refs(self, i):
        k, v = self.op(i)
        if k in ("Pub", "PubReplace"): return [v["body"]]
        if k == "Or": return list(v)
        if k == "And": return list(v[0])
        if k in ("Rep", "Opt", "Not", "Cached"): return [v]
        if k in ("WithSkip", "Layer", "Inject"): return list(v)
        if k in ("Enter", "Exit"): return [v[1]]
        if k == "Call": return [v[0]] + [a for _, a in v[1]]
        if k == "Pratt": return list(v["atoms"]) + [p["op"] for p in v["prefixes"]] + [p["op"] for p in v["infixes"]]
        if k in ("Token", "ContextualToken", "Eof", "Any", "IsIn", "Var", "PrevIs"): return []
        raise Bad("operator %s of rule %d is unknown" % (k, i))

    def types(self, i):
        k, v = self.op(i)
        if k in ("Pub", "PubReplace"): return [v["ty"]]
        if k == "Token": return [v]
        if k == "ContextualToken": return [v[0]]
        if k == "PrevIs": return list(v)
        if k == "Pratt": return [p["ty"] for p in v["prefixes"] + v["infixes"]]
        return []

    def wellformed(self):
        n = len(self.r)
        for i in range(n):
            k, v = self.op(i)
            for c in self.refs(i):
                if not 0 <= c < n: self.bad("ref", i, "%s refers to rule %d of %d" % (k, c, n))
            for t in self.types(i):
                if not 0 <= t < self.nty: self.bad("type", i, "%s refers to node kind %d of %d" % (k, t, self.nty))
            if k in ("Enter", "Exit") and not 0 <= v[0] < self.nctx: self.bad("ctx", i, "%s refers to context %d of %d" % (k, v[0], self.nctx))
            if k == "IsIn" and not 0 <= v < self.nctx: self.bad("ctx", i, "IsIn refers to context %d of %d" % (v, self.nctx))
            if k == "Var" and not 0 <= v < self.narg: self.bad("slot", i, "argument slot %d of %d" % (v, self.narg))
            if k == "Call":
                for a, _ in v[1]:
                    if not 0 <= a < self.narg: self.bad("slot", i, "argument slot %d of %d" % (a, self.narg))
                if len({a for a, _ in v[1]}) != len(v[1]): self.bad("slot", i, "one argument slot is bound twice by a call")
            if k == "And" and v[1] is not None and not 0 <= v[1] <= len(v[0]): self.bad("commit", i, "commit point %d of a sequence of %d parts" % (v[1], len(v[0])))
            if k == "ContextualToken" and not v[1]: self.bad("text", i, "contextual token without text")
            if k == "Pub" and v["ty"] == 0 or k == "PubReplace" and v["ty"] == 0: self.bad("type", i, "a rule builds a node of the error kind")
        if n == 0 or self.op(0)[0] != "Pub" or self.op(0)[1]["replaceable"]: self.bad("start", 0, "the start rule does not build the root node")
        return not self.problems

    def free_slots(self):
        f = {i: set() for i in range(len(self.r))}
        ch = True
        while ch:
            ch = False
            for i in range(len(self.r)):
                k, v = self.op(i)
                if k == "Var": s = {v}
                elif k == "Call": s = (f[v[0]] - {a for a, _ in v[1]}).union(*[f[a] for _, a in v[1]])
                else: s = set().union(*[f[c] for c in self.refs(i)])
                if s != f[i]: f[i] = s; ch = True
        self.free = f

    def state(self, i, env):
        s, todo = set(), list(self.free[i])
        while todo:
            x = todo.pop()
            if x in s or x not in env: continue
            s.add(x); todo += self.free[env[x]]
        return (i, tuple(sorted((a, env[a]) for a in s)))

    def succ(self, st):
        """the states a state invokes, in the shape of its operator"""
        i, e = st
        env = dict(e)
        k, v = self.op(i)
        if k == "Var":
            if v not in env:
                self.bad("unbound", i, "the rule's parameter in slot %d is used where no call has bound it" % v)
                return []
            return [self.state(env[v], env)]
        if k == "Call":
            new = dict(env)
            for a, x in v[1]:
                kk, vv = self.op(x)
                if kk == "Var":
                    if vv not in env:
                        self.bad("unbound", i, "a call forwards the parameter in slot %d, which no call has bound" % vv)
                        continue
                    x = env[vv]
                new[a] = x
            return [self.state(v[0], new)]
        return [self.state(c, env) for c in self.refs(i)]

    def explore(self):
        root = self.state(0, {})
        self.S = {}
        todo = [root]
        while todo:
            s = todo.pop()
            if s in self.S: continue
            if len(self.S) > 200000: raise Bad("the table has too many instantiations")
            self.S[s] = self.succ(s)
            todo += self.S[s]

    # ---- may a state match without consuming?
    def nullable(self):
        N = self.N = {s: False for s in self.S}
        ch = True
        while ch:
            ch = False
            for s, c in self.S.items():
                if not N[s] and self.null1(s, c): N[s] = True; ch = True

    def null1(self, s, c):
        N = self.N
        k, v = self.op(s[0])
        if k in ("Token", "ContextualToken", "Any"): return False
        if k in ("Rep", "Opt", "Not", "Eof", "IsIn", "PrevIs"): return True
        if k == "Or": return any(N[x] for x in c)
        if k == "And":
            m = len(c) if v[1] is None else v[1]
            return all(N[x] for x in c[:m])
        if k == "WithSkip": return N[c[1]]
        if k == "Layer": return N[c[0]]
        if k == "Inject": return N[c[0]] and N[c[1]]
        if k == "Pratt":
            at, pre, inf = self.pratt(s, c)
            return any(N[x] for x in at)
        if not c: return True            # unbound: reported elsewhere
        return N[c[0]]

    def pratt(self, s, c):
        v = self.op(s[0])[1]
        a, p = len(v["atoms"]), len(v["prefixes"])
        return c[:a], c[a:a + p], c[a + p:]

    def left(self, s):
        """states invoked before anything has been consumed since s began"""
        N, c = self.N, self.S[s]
        k, v = self.op(s[0])
        if k == "And":
            out = []
            for x in c:
                out.append(x)
                if not N[x]: break
            return out
        if k == "Inject": return c if N[c[0]] else c[:1]
        if k == "Pratt":
            at, pre, inf = self.pratt(s, c)
            out = at + pre
            if any(N[x] for x in pre): out = out + [s]
            if any(N[x] for x in at): out = out + inf
            return out
        return c

    def name(self, i, names):
        return names.get(i) or "%s (#%d)" % (self.op(i)[0], i)

    def left_cycles(self):
        """strongly connected parts of the left-call graph"""
        idx, low, on, stack, out = {}, {}, set(), [], []
        for root in self.S:
            if root in idx: continue
            work = [(root, iter(self.left(root)))]
            idx[root] = low[root] = len(idx); stack.append(root); on.add(root)
            while work:
                s, it = work[-1]
                for x in it:
                    if x not in idx:
                        idx[x] = low[x] = len(idx); stack.append(x); on.add(x)
                        work.append((x, iter(self.left(x))))
                        break
                    elif x in on: low[s] = min(low[s], idx[x])
                else:
                    work.pop()
                    if work: low[work[-1][0]] = min(low[work[-1][0]], low[s])
                    if low[s] == idx[s]:
                        comp = []
                        while True:
                            y = stack.pop(); on.discard(y); comp.append(y)
                            if y == s: break
                        if len(comp) > 1 or s in self.left(s): out.append(comp)
        return out

    # ---- what the first event of a non-empty match may be: subset of {"fresh","forwarded","other","none"}
    def first(self):
        Fm = self.Fst = {s: frozenset() for s in self.S}
        ch = True
        while ch:
            ch = False
            for s, c in self.S.items():
                n = Fm[s] | self.first1(s, c)
                if n != Fm[s]: Fm[s] = n; ch = True

    def first1(self, s, c):
        Fm = self.Fst
        k, v = self.op(s[0])
        if k == "Pub": return {"fresh"}
        if k in ("Token", "ContextualToken", "Any", "Cached"): return {"other"}
        if k in ("Not", "Eof", "IsIn", "PrevIs"): return {"none"}
        if k == "Or": return set().union(*[Fm[x] for x in c])
        if k in ("Rep", "Opt"): return {"none"} | Fm[c[0]]
        if k == "And":
            out, m = set(), len(c) if v[1] is None else v[1]
            for j, x in enumerate(c):
                if j >= m: out.add("fresh")        # recovery: an error node is opened here
                f = Fm[x]
                out |= f - {"none"}
                if "none" not in f: return out
            return out | {"none"}
        if k == "WithSkip": return {"fresh"} | Fm[c[1]]   # an error node or the body
        if k == "Layer": return {"fresh", "none"} | Fm[c[1]]   # the body, or an error node
        if k == "Inject":
            out = set(Fm[c[0]])
            if "fresh" in out or "forwarded" in out: out.add("forwarded")
            if "none" in out: out = out - {"none"} | Fm[c[1]]
            return out
        if k == "Pratt":
            at, pre, inf = self.pratt(s, c)
            out = set().union(*[Fm[x] for x in at]) if at else set()
            if pre: out.add("fresh")
            if inf and "fresh" in out: out.add("forwarded")
            return out
        if not c: return set()
        return Fm[c[0]]


def struct_strings(eng, v, out, seen):
    """string literals a value depends on"""
    if not isinstance(v, tuple) or not v: return
    if v[0] == "str": out.append(v[1]); return
    if v[0] in ("s", "T") and isinstance(v[1], int):
        if v[1] in seen: return
        seen.add(v[1]); struct_strings(eng, eng.T.structs[v[1]], out, seen)
        return
    for x in v: struct_strings(eng, x, out, seen)


def const_seq(v):
    if v[0] not in ("seq", "arr"): raise CheckError("a table is not a literal list: %r" % (v,))
    if v[0] == "arr": return list(v[1])
    r = []
    for k, x in v[1]:
        if k != "it": raise CheckError("a table is not a literal list")
        r.append(x)
    return r


def const_int(v):
    if isinstance(v, int): return v
    if v[0] == "i" and not v[1]: return v[2]
    raise CheckError("a table holds something that is not a constant: %r" % (v,))


def single(outs, what):
    if len(outs) != 1: raise CheckError("%s is not straight-line" % what)
    return outs[0]


class Lang:
    """what a generated parser module declares"""
    def __init__(self, F, M, ctx, fn):
        self.fn = fn
        self.mod = fn.path.split("::language")[0] if "::language" in fn.path else fn.path.rsplit("::", 1)[0]
        b = Bench(F, M); e = b.eng
        st, v = single(b.run(fn, []), fn.path)
        ctx.account(e)
        self.kinds = [const_int(x) for x in const_seq(e.fld(v, fidx(F, PD, "node_types"), "node_types", "", PD))]
        r = e.fld(v, fidx(F, PD, "syntactical_rules"), "syntactical_rules", "", PD)
        ss = []
        struct_strings(e, r, ss, set())
        ss = [x for x in ss if x.lstrip().startswith("[")]
        if len(ss) != 1: raise CheckError("the rule table of %s is not read from one literal" % fn.path)
        self.rules = json.loads(ss[0])
        self.lex = None
        for f in F.fns.values():
            if f.locals[0][0]["s"] == "fall_parse::RegexLexer" and f.path.startswith(self.mod + "::") and f.argc == 0:
                self.lex = self.lexer(F, M, ctx, f)
        if self.lex is None: raise CheckError("no lexer next to %s" % fn.path)
        self.info = [f for f in F.fns.values() if f.name == "node_type_info" and (f.impl_trait or "").endswith("LanguageImpl") and (self.mod + "::") in f.path]
        if len(self.info) != 1: raise CheckError("no node_type_info next to %s" % fn.path)
        self.names = {}
        for k in sorted(set(self.kinds)):
            b = Bench(F, M)
            outs = b.run(self.info[0], [b.eng.fresh("self"), const(k)])
            ctx.account(b.eng)
            if len(outs) == 1 and not b.ck.panics:
                v = outs[0][1]
                if v[0] == "adt":
                    x = v[3][fidx(F, "fall_tree::node_type::NodeTypeInfo", "name")]
                    if x[0] == "rv": x = x[1]
                    self.names[k] = x[1] if x[0] == "str" else "?"
        self.g = None

    def lexer(self, F, M, ctx, f):
        got = []

        class Ck(Rec):
            def intercept(ck, eng, st, name, args, call):
                if name == "fall_parse::RegexLexer::new":
                    got.append((eng, st, args[0])); return [(st, eng.fresh("lexer"))]
                return None
        b = Bench(F, M, Ck())
        single(b.run(f, []), f.path)
        ctx.account(b.eng)
        if len(got) != 1: raise CheckError("%s makes %d lexers" % (f.path, len(got)))
        e, st, v = got[0]
        if v[0] in ("ref", "rv"): v = e.load(st, v)
        out = []
        LR = "fall_parse::LexRule"
        for r in const_seq(v):
            re_ = e.fld(r, fidx(F, LR, "re"), "re", "", LR)
            ss = []
            struct_strings(e, re_, ss, set())
            out.append((const_int(e.fld(r, fidx(F, LR, "ty"), "ty", "", LR)), ss[0] if len(ss) == 1 else None, e.fld(r, fidx(F, LR, "f"), "f", "", LR)))
        return out


def languages(F):
    return [fn for path, fn in sorted(F.fns.items()) if fn.locals[0][0]["s"] == PD and fn.argc == 0 and not fn.impl_trait]


def slots(F, field):
    a = F.adt("fall_parse::syn_engine::parser::Parser")
    for f in a["variants"][0]["fields"]:
        if f["name"] == field:
            t = f["ty"]
            m = re.search(r";\s*(\d+)\]", t["s"] if isinstance(t, dict) else str(t))
            if m: return int(m.group(1))
    raise CheckError("anchor missing: slots of Parser.%s" % field)


def min_width(rx):
    import re._parser as rp
    try:
        return rp.parse(re.sub(r"\\[pP]\{[^}]*\}", "x", rx)).getwidth()[0]
    except Exception:
        return None


def analyse(F, M, rep, ctx):
    nctx, narg = slots(F, "contexts"), slots(F, "args")
    ls = languages(F)
    rep.ok("C11 C12", "grammar tables found", len(ls) >= 5, "tables", "only %d grammar tables are found in the program" % len(ls))
    for fn in ls:
        l = Lang(F, M, ctx, fn)
        short = l.mod
        ok = lambda p, what, cond, key, msg: rep.ok(p, "%s: %s" % (short, what), cond, "table:%s:%s" % (short, key), lambda: "%s: %s" % (short, msg))
        ok("C12", "node kinds are distinct and begin with ERROR", l.kinds[:1] == [0] and len(set(l.kinds)) == len(l.kinds), "kinds", "the list of node kinds %s" % ("repeats a kind" if l.kinds[:1] == [0] else "does not begin with ERROR"))
        for k in l.kinds: ok("C12", "every kind has a description", k in l.names, "info:%d" % k, "node_type_info panics for kind %d of the table" % k)
        byname = {}
        for k, n in l.names.items():
            ok("C12", "kind names are distinct", n == "?" or n not in byname, "name:%s" % n, "two node kinds are both described as %s" % n)
            byname[n] = k
        lexkinds = set()
        for k, rx, f in l.lex:
            lexkinds.add(k)
            ok("C12", "lexer kinds are declared", k in l.kinds and k != 0, "lexkind:%d" % k, "the lexer produces kind %d, which is not among the node kinds" % k)
            w = min_width(rx) if rx is not None else None
            if w is not None and f[0] == "adt" and f[2] == 0:
                ok("C12", "lexical rules match at least one character", w > 0, "rx:%s" % l.names.get(k, k), "the pattern of %s may match nothing, which the lexer refuses with a panic" % l.names.get(k, k))
        g = Grammar(l.rules, len(l.kinds), nctx, narg)
        names = {}
        for i in range(len(l.rules)):
            kk, v = g.op(i)
            if kk in ("Pub", "PubReplace") and 0 <= v["ty"] < len(l.kinds): names[i] = "rule of %s" % l.names.get(l.kinds[v["ty"]], v["ty"])
        where = lambda i: "rule %s" % g.name(i, names)
        good = g.wellformed()
        for i in range(len(l.rules)): rep.obl["C12"] = rep.obl.get("C12", 0) + 1
        for kind, i, msg in g.problems: ok("C12", "references resolve", False, "%s:%d" % (kind, i), "%s: %s" % (where(i), msg))
        if not good:
            ok("C11", "table can be analysed", False, "malformed", "the table is not well formed (see C12), so termination is undecided")
            continue
        for i in range(len(l.rules)):
            kk, v = g.op(i)
            if kk == "Token": ok("C12", "tokens named by rules exist", l.kinds[v] in lexkinds, "tok:%d" % v, "%s wants a token of kind %s, which no lexical rule produces" % (where(i), l.names.get(l.kinds[v])))
        g.free_slots(); g.explore()
        ctx.count("rule instantiations analysed", len(g.S)); ctx.count("table rules", len(l.rules))
        for kind, i, msg in g.problems: ok("C12", "parameters are bound", False, "%s:%d" % (kind, i), "%s: %s" % (where(i), msg))
        g.nullable(); g.first()
        for s, c in g.S.items():
            kk, v = g.op(s[0])
            if kk == "Rep" and c:
                ok("C11", "repeated bodies consume", not g.N[c[0]], "rep:%d" % s[0], "%s repeats %s, which may match without consuming a token: the repetition need not end" % (where(s[0]), g.name(c[0][0], names)))
            if kk == "Pratt":
                at, pre, inf = g.pratt(s, c)
                for x in inf: ok("C11", "operators consume", not g.N[x], "op:%d" % x[0], "the operator %s of an expression rule may match without consuming a token" % g.name(x[0], names))
                for x in pre: ok("C11", "prefix operators consume", not g.N[x], "op:%d" % x[0], "the prefix operator %s of an expression rule may match without consuming a token" % g.name(x[0], names))
                for x in at:
                    ok("C11", "atoms consume", not g.N[x], "atom:%d" % x[0], "the atom %s of an expression rule may match without consuming a token" % g.name(x[0], names))
                    if inf: ok("C12", "atoms build a node", g.Fst[x] <= {"fresh"}, "atom:%d" % x[0], "the atom %s of an expression rule need not begin with a node of its own, so an operator cannot take it as operand" % g.name(x[0], names))
            if kk == "Inject":
                ok("C12", "injected prefixes build a node", g.Fst[c[0]] - {"none"} <= {"fresh"} and (not g.N[c[0]] or True), "inj:%d" % s[0], "%s injects %s, which need not begin with a node of its own" % (where(s[0]), g.name(c[0][0], names)))
                ok("C12", "injecting bodies build a node", g.Fst[c[1]] <= {"fresh"}, "injb:%d" % s[0], "%s injects into %s, which need not begin with a node of its own" % (where(s[0]), g.name(c[1][0], names)))
            rep.obl["C11"] = rep.obl.get("C11", 0) + 1
        for comp in g.left_cycles():
            ids = sorted({x[0] for x in comp})
            nm = sorted({names[i] for i in ids if i in names}) or [g.name(i, names) for i in ids[:4]]
            ok("C11", "no left recursion", False, "left:" + ",".join(map(str, ids[:6])), "left recursion through %s: these rules can invoke each other for ever without consuming a token" % ", ".join(nm))
