"""C03/C04/C05/C06 and the operator semantics: the syntactic engine, decided by abstract
interpretation of `parse_expr`, `pratt_go` and `parse` under an assume/guarantee contract.

Contract of a nested `parse_expr(p, e, P)` (and `pratt_go`):
  None     -> events, contexts, args, predicate_mode, prev, replacement unchanged
  Some(t)  -> t.1 = P.1, P.0 <= t.0 <= P.1, contexts/args/predicate_mode unchanged; without
              lookahead the event log is extended by one well-nested chunk whose tokens cover
              exactly t.0 - P.0 raw tokens, with lookahead it is unchanged.
The contract is assumed for nested calls and proved for every outcome of the root (induction on
the call depth); a monitor automaton per grammar operator is run over the nested calls."""
from absint import *
from facts import CheckError
from report import Report
import linear as L

PARSER = "fall_parse::syn_engine::parser::Parser"
POS = "fall_parse::syn_engine::parser::Pos"
EXPR = "fall_parse::Expr"
EVENT = "fall_parse::syn_engine::Event"
PE = "fall_parse::syn_engine::expr::parse_expr"
PG = "fall_parse::syn_engine::pratt::pratt_go"
GRAMMAR = "fall_parse::syn_engine::Grammar"


def eqv(eng, st, a, b, depth=0):
    """semantic equality of two values modulo provable equality of the integers inside"""
    if a == b: return True
    if depth > 14 or not isinstance(a, tuple) or not isinstance(b, tuple): return False
    if a and b and a[0] in ("rv", "ref") and b[0] in ("rv", "ref"):
        try: return eqv(eng, st, eng.load(st, a), eng.load(st, b), depth + 1)
        except CheckError: return False
    if a and b and is_num(a) and is_num(b):
        d = L.add(aff(a), aff(b), -1)
        if d[0] and eng.holds(st, d) and eng.holds(st, L.neg(d)): return True
        if a[0] == "s" and b[0] == "s":
            return eqv(eng, st, eng.T.structs[a[1]], eng.T.structs[b[1]], depth + 1)
        return False
    if len(a) == 2 and len(b) == 2 and a[0] == "T" and b[0] == "T":
        return eqv(eng, st, ("s", a[1]), ("s", b[1]), depth + 1)
    if a and b and a[0] in ("#", "phi"): return False
    if len(a) != len(b): return False
    return all(x == y or eqv(eng, st, x, y, depth + 1) for x, y in zip(a, b))


class ParserChecker(Checker):
    def __init__(self, F, rep, root):
        self.F, self.rep, self.root = F, rep, root
        a = F.adt(PARSER)
        self.pf = {f["name"]: i for i, f in enumerate(a["variants"][0]["fields"])}
        for n in ("cache", "grammar", "text", "tokens", "non_ws_indexes", "events", "replacement", "predicate_mode", "contexts", "args", "prev"):
            if n not in self.pf: raise CheckError("anchor missing: field Parser.%s" % n)
        self.ev = {v["name"]: i for i, v in enumerate(F.adt(EVENT)["variants"])}
        self.ex = {v["name"]: i for i, v in enumerate(F.adt(EXPR)["variants"])}
        for n in ("Pub PubReplace Or And Token ContextualToken Rep WithSkip Opt Not Eof Any Layer Pratt Enter Exit IsIn Call Var PrevIs Inject Cached").split():
            if n not in self.ex: raise CheckError("anchor missing: grammar operator %s" % n)
        self.exn = {i: n for n, i in self.ex.items()}
        self.calls = 0
        self.asserts = {}
        self.panics = {}
        self.P = None       # entry position (p0, p1)
        self.rule = None    # grammar element value
        self.mode = None
        self.fixpoint = {}

    # ---------------------------------------------------------- helpers
    pref = ("ref", ("P", 0), ())

    def get(self, st, name): return self.eng.load(st, self.pref)[3][self.pf[name]]

    def put(self, st, **kw):
        v = self.eng.load(st, self.pref)
        p = list(v[3])
        for k, x in kw.items(): p[self.pf[k]] = x
        self.eng.store(st, self.pref, v[:3] + (tuple(p),))

    def init_parser(self, eng, st, mode):
        a = self.F.adts[PARSER]["variants"][0]["fields"]
        fs = []
        for f in a:
            fs.append(eng.fresh("p." + f["name"]))
        st.mem[("P", 0)] = ("adt", PARSER, 0, tuple(fs))
        self.put(st, predicate_mode=("b", mode), events=("seq", (("ck", fs[self.pf["events"]][1]),)))
        self.E0 = ("ck", fs[self.pf["events"]][1])
        self.p0 = {n: self.get(st, n) for n in self.pf}
        self.N = eng.seqlen(self.p0["non_ws_indexes"])
        g = self.p0["grammar"]
        gv = eng.getcell(st, ("D", g[1]))
        self.node_types = self.gfield(eng, gv, "node_types")
        self.rules = self.gfield(eng, gv, "rules")

    def gfield(self, eng, gv, name):
        fs = self.F.adt(GRAMMAR)["variants"][0]["fields"]
        i = next((k for k, f in enumerate(fs) if f["name"] == name), None)
        if i is None: raise CheckError("anchor missing: field Grammar.%s" % name)
        return eng.fld(gv, i, name, "", GRAMMAR)

    def rule_of(self, eng, st, e):
        return eng.index(st, eng.load(st, eng.deref(self.rules)), e)

    def ty_of(self, eng, st, ref):
        return eng.index(st, eng.load(st, eng.deref(self.node_types)), ref)

    def pos(self, eng, v):
        if v[0] == "adt": return v[3]
        return (eng.fld(v, 0, "0", "", POS), eng.fld(v, 1, "1", "", POS))

    def mkpos(self, a, b): return ("adt", POS, 0, (a, b))

    def f(self, eng, v, i, vname, name=None):
        if name is None: name = str(i)
        return eng.fld(v, i, name, vname)

    def xfield(self, eng, name):
        """field of the rule under analysis by declared name"""
        v = self.exn[self.variant]
        fs = self.F.adts[EXPR]["variants"][self.variant]["fields"]
        i = next(k for k, f in enumerate(fs) if f["name"] == name)
        return eng.fld(self.rule, i, name, v)

    def on_variant(self, eng, st, i, idx, path):
        """whether a sequence has a commit point is not forgotten where paths meet"""
        if self.root != "parse_expr" or self.rule is None or st.vars.get(self.rule[1]) != self.ex["And"] or not isinstance(idx, int): return
        self.variant = self.ex["And"]
        if self.xfield(eng, "1") == ("s", i): st.mem[("G", "committed")] = ("adt", "mon", idx, ())

    def where(self, st):
        v = st.vars.get(self.rule[1]) if self.rule is not None else None
        return self.exn.get(v, self.root) if isinstance(v, int) else self.root

    def le(self, eng, st, a, b): return eng.holds(st, L.add(aff(b), aff(a), -1))
    def eqn(self, eng, st, a, b): return self.le(eng, st, a, b) and self.le(eng, st, b, a)

    # ---------------------------------------------------------- measures on events
    def m_tok(self, eng, it):
        if it[0] != "adt" or it[1] != EVENT: return None
        return aff(it[3][1]) if it[2] == self.ev["Token"] else ((), 0)

    def m_bal(self, eng, it):
        if it[0] != "adt" or it[1] != EVENT: return None
        return ((), 1) if it[2] == self.ev["Start"] else ((), -1) if it[2] == self.ev["End"] else ((), 0)

    def setup(self, eng):
        self.eng = eng
        eng.measures["#ntok"] = self.m_tok
        eng.measures["#bal"] = self.m_bal
        orig = eng.ckmeasure

        def ckm(name, i):
            a = eng.chunk_meas.get((name, i))
            if a is not None: return a
            stt = eng.T.structs[i]
            if stt[0] == "mod" and name in ("#ntok", "#bal"):
                return ckm(name, stt[1][1])
            if stt[0] == "sl":
                x = self.salvaged(eng, stt)
                if x is not None:
                    return ((), 0) if name == "#bal" else aff(eng.fld(x, 2, "2"))
            return orig(name, i)
        eng.ckmeasure = ckm

    def salvaged(self, eng, sl):
        """the cache entry X with sl = prev_events[X.0 .. X.0+X.1], or None"""
        lo, ln = sl[2], sl[3]
        if lo[0] != "s": return None
        s = eng.T.structs[lo[1]]
        if s[0] != "f" or s[2] != "0": return None
        x = ("s", s[3][1])
        if aff(ln) != aff(eng.fld(x, 1, "1")): return None
        base = eng.fld(eng.fld(self.p0["cache"], 0, "0", "Some"), 1, "1")
        if not self.same_place(eng, sl[1], base): return None
        return x

    def same_place(self, eng, a, base):
        return a == base or (a[0] == "s" and eng.T.structs[a[1]] == ("*", ("T", base[1])))

    def cache_entry_key(self, eng, x):
        """(table, key) of the lookup that produced entry x = *get(&table, &key)"""
        s = eng.T.structs[x[1]]
        if s[0] == "*": s = eng.T.structs[s[1][1]]
        if s[0] == "f" and s[2] == "0": s = eng.T.structs[s[3][1]] if s[3][0] == "T" else s
        if s[0] == "*": s = eng.T.structs[s[1][1]]
        if s[0] == "app" and s[1].endswith("::get") and len(s) == 4:
            k = s[3]
            while k[0] == "rv": k = k[1]
            t = s[2]
            while t[0] == "rv": t = t[1]
            return t, k
        return None

    def nested(self, eng, st, chunks):
        """final depth (affine) of a well-nested event sequence, or None if it may dip below its start"""
        lvl = ((), 0)
        for c in chunks:
            if c[0] == "it":
                d = self.m_bal(eng, c[1])
                if d is None: return None
                lvl = L.add(lvl, d)
                if not eng.holds(st, lvl): return None
            else:
                if not self.ck_nested(eng, c[1]): return None
                lvl = L.add(lvl, eng.ckmeasure("#bal", c[1]))
                if not eng.holds(st, lvl): return None
        return lvl

    def ck_nested(self, eng, i):
        a = eng.chunk_attr.get(i)
        if a is not None: return bool(a.get("nested"))
        s = eng.T.structs[i]
        if s[0] == "mod":
            # only forward_parent / type rewrites of a Start event
            nv = s[3]
            return self.ck_nested(eng, s[1][1])
        if s[0] == "sl": return self.salvaged(eng, s) is not None
        return False

    def summarise(self, eng, extras, phi):
        prev = eng.chunk_attr.get(phi)
        ok = True if prev is None else prev.get("nested", False)
        eng.chunk_attr[phi] = {"nested": True}
        st = St()
        good = True
        for chs in extras:
            l = ((), 0)
            for c in chs:
                if c[0] == "it":
                    d = self.m_bal(eng, c[1])
                    if d is None: good = False; break
                    l = L.add(l, d)
                    if l[0] or l[1] < 0: good = False; break
                else:
                    if c[1] != phi and not self.ck_nested(eng, c[1]): good = False; break
                    m = eng.ckmeasure("#bal", c[1])
                    if m[0]:
                        if c[1] == phi: m = ((), 0)   # relative to the accumulated chunk
                        else: good = False; break
                    l = L.add(l, m)
        eng.chunk_attr[phi] = {"nested": ok and good}
        return eng.chunk_attr[phi]

    # ---------------------------------------------------------- hooks
    def on_assert(self, eng, st, kind, cond, fn, span):
        if eng.quiet: return
        d = eng.decide(st, cond)
        k = (fn.path, kind, eng.show(cond, 5))
        ids = cond[2][0] if cond[0] == "c" and cond[1] in ("ge", "eq") else ()
        old = self.asserts.get(k, (True, ()))
        self.asserts[k] = (old[0] and d is True, tuple(i for i, _ in ids))

    def on_panic(self, eng, st, name, fn, span):
        if eng.quiet: return
        self.panics[(self.where(st), fn.path, name)] = eng.show(st.mem[("P", 0)], 3) if ("P", 0) in st.mem else ""

    # panics that well-formed grammar tables rule out (obligations of the table checks)
    TABLE_PANICS = {("Inject", "unreachable"), ("pratt_go", "unreachable"), ("Var", "unwrap"), ("Call", "unwrap"), ("parse", "unreachable")}

    def labels(self, eng, ids):
        out = set()
        for i in ids:
            for a in eng.T.atoms[i]:
                s = eng.T.structs[a]
                out.add(s[2].split(":")[0] if s[0] == "#" and len(s) > 2 else "phi")
        return out

    def panic_obligations(self, what):
        """every index, subtraction and panic of the engine is unreachable, up to facts about the
        grammar tables (checked on the tables), token offsets (proved for Parser::new) and the cache"""
        eng = self.eng
        for (w, fn, name) in self.panics:
            k = name.split("::")[-1]
            short = "unwrap" if "unwrap" in k else "unreachable" if "unreachable" in k else k
            tol = (w, short) in self.TABLE_PANICS or (w == "ContextualToken" and fn.endswith("TextRange::from_to"))
            if not tol: self.rep.ok("C26", "no panic", False, "panic:%s:%s" % (w, short), "the parser can panic (%s in %s) while running %s" % (short, fn, w))
        for (fn, kind, text), (good, ids) in self.asserts.items():
            lab = self.labels(eng, ids)
            table = bool(lab & {"p.grammar", "grammar", "table"}) and kind == "bounds"
            slots = kind == "bounds" and any(eng.T.structs[i][0] == "f" for i in ids) and "p.grammar" in lab and "15" in text
            offs = bool(lab & {"p.tokens", "tokens"}) and kind == "bounds" or lab <= {"p.text", "p.non_ws_indexes", "P.0"} and kind == "sub" and "p.text" in lab
            cache = "p.cache" in lab and kind == "slice"
            self.rep.ok("C26", "%s in %s" % (kind, fn.split("::")[-1]), good or table or slots or offs or cache,
                        "assert:%s:%s" % (fn, kind), "%s can fail in %s while parsing: %s" % ({"bounds": "an index", "slice": "a slice", "sub": "a subtraction"}.get(kind, kind), fn, text))

    def pop_chunk(self, eng, st, ref, v):
        """popping the End of an opaque chunk that is known to end with one"""
        ch = eng.seq(v)
        i = ch[-1][1]
        a = eng.chunk_attr.get(i)
        if not a or not a.get("pub"): return None
        ni = eng.T.intern(("popped", ("T", i)))
        eng.chunk_len[ni] = L.shift(eng.cklen(i), -1)
        eng.chunk_meas[("#bal", ni)] = L.shift(eng.ckmeasure("#bal", i), 1)
        eng.chunk_meas[("#ntok", ni)] = eng.ckmeasure("#ntok", i)
        eng.chunk_attr[ni] = {"nested": True}
        eng.write(st, ref, ("seq", ch[:-1] + (("ck", ni),)), None, None)
        return [(st, some(("adt", EVENT, self.ev["End"], ())))]

    def intercept(self, eng, st, name, args, call):
        if name == PE or name == PG or (name in eng.recursive_contract):
            return self.contract(eng, st, name, args, call)
        if self.root == "parse" and call.get("trait") and "ops::function::Fn" in call["trait"] or (self.root == "parse" and name.endswith("{closure#0}")):
            return self.ws_call(eng, st, name, args, call)
        return None

    def arg(self, call, args, what):
        for i, t in enumerate(call["aty"]):
            s = t["s"]
            if what == "parser" and t["k"] == "ref" and strip_ty(s) == PARSER: return args[i]
            if what == "pos" and s == POS: return args[i]
            if what == "expr" and s == "fall_parse::ExprRef": return args[i]
            if what == "table" and "PrattTable" in s: return args[i]
            if what == "prio" and s == "u32": return args[i]
        raise CheckError("anchor missing: %s argument of %s" % (what, call["name"]))

    def mon(self, st): return st.mem[("G", "mon")]

    def contract(self, eng, st, name, args, call):
        self.calls += 1
        pos = self.pos(eng, self.arg(call, args, "pos"))
        if self.root == "parse": self.parse_entry(eng, st, eng.deref(self.arg(call, args, "parser")), pos)
        self.log_before = eng.seq(self.get(st, "events"))
        w = self.where(st)
        mode = self.get(st, "predicate_mode")
        if not eng.quiet:
            self.rep.ok("C01", "call position within the input at %s" % w, self.le(eng, st, pos[0], pos[1]) and eng.holds(st, L.add(self.N, aff(pos[1]), -1)),
                        "range:%s" % w, "%s may call a nested rule at a position outside the token range: [%s, %s)" % (w, eng.show(pos[0]), eng.show(pos[1])))
        if name == PE:
            e = self.arg(call, args, "expr")
            self.spec_call(eng, st, w, "expr", e, pos, mode, call)
        else:
            e = (self.arg(call, args, "table"), self.arg(call, args, "prio"))
            self.spec_call(eng, st, w, "pratt", e, pos, mode, call)
        # --- outcomes
        outs = []
        s0 = st.copy()
        self.log(eng, s0, False, pos, None, name, e, mode)
        outs.append((s0, NONE))
        s1 = st
        t0 = eng.fresh("t")
        t = (t0, pos[1])
        eng.addfact(s1, L.add(aff(t0), aff(pos[0]), -1))
        eng.addfact(s1, L.add(aff(pos[1]), aff(t0), -1))
        rpl, prv = eng.fresh("replacement"), eng.fresh("prev")
        kw = {"replacement": rpl, "prev": prv, "ticks": eng.fresh("ticks")}
        if mode == FALSE:
            ck = eng.fresh("ev")[1]
            eng.chunk_attr[ck] = {"nested": True, "call": (name, e), "pub": self.is_start(eng, s1, name, e)}
            eng.chunk_meas[("#bal", ck)] = ((), 0)
            eng.chunk_meas[("#ntok", ck)] = L.add(aff(t0), aff(pos[0]), -1)
            if eng.chunk_attr[ck]["pub"]: eng.addfact(s1, L.shift(eng.cklen(ck), -2))
            kw["events"] = ("seq", eng.seq(self.get(s1, "events")) + (("ck", ck),))
            # an event stands for at most u16::MAX raw tokens
            eng.addfact(s1, L.norm(L.add(L.add(((), 0), eng.cklen(ck), 65535), eng.ckmeasure("#ntok", ck), -1)))
            if self.root == "pratt_go" and self.gget(s1, "ph") == 0 and name == PE:
                # grammar obligation (checked on the tables): an operand starts with its own node
                eng.addfact(s1, L.shift(eng.cklen(ck), -2))
        elif mode != TRUE:
            raise CheckError("lookahead mode is not decided at a nested call in %s" % w)
        self.put(s1, **kw)
        if w == "Pub": s1.mem[("G", "repl_after_body")] = rpl
        self.log(eng, s1, True, pos, t, name, e, mode)
        outs.append((s1, some(self.mkpos(*t))))
        return outs

    def is_start(self, eng, st, name, e):
        if name != PE or self.rules is None: return False
        r = self.rule_of(eng, st, e)
        return (r[0] == "s" and st.vars.get(r[1]) == self.ex["Pub"]) or e == self.start_rule

    start_rule = None

    # ---------------------------------------------------------- monitor
    def mon_init(self, eng, st):
        z = const(0)
        st.mem[("G", "n")] = ("tup", (z, z))                    # successful / failed nested calls
        st.mem[("G", "cur")] = ("tup", self.P)                  # end of the last success
        st.mem[("G", "last")] = ("adt", "mon", 0, ())           # 0 nothing yet, 1 success, 2 failure
        st.mem[("G", "pk")] = z
        st.mem[("G", "ctn")] = st.mem[("G", "cts")] = z
        st.mem[("G", "argk")] = z                               # arguments bound so far
        st.mem[("G", "at")] = ("tup", self.P)                   # where the last call started

    def log(self, eng, st, ok, pos, t, name, e, mode):
        if self.root == "pratt_go":
            self.pratt_log(eng, st, ok, pos, t, name, e)
            if ok: st.mem[("G", "cur")] = ("tup", t)
            return
        n = st.mem[("G", "n")][1]
        s, f = n
        tot = L.add(aff(s), aff(f))
        if not tot[0] and tot[1] < 2 and self.where(st) in ("Layer", "Inject", "pratt_go", "parse"):
            st.mem[("G", "c", tot[1])] = ("tup", (("b", ok), ("tup", pos), ("tup", t if t else pos)))
        st.mem[("G", "n")] = ("tup", (num(L.shift(aff(s), 1 if ok else 0)), num(L.shift(aff(f), 0 if ok else 1))))
        st.mem[("G", "last")] = ("adt", "mon", 1 if ok else 2, ())
        st.mem[("G", "at")] = ("tup", pos)
        if ok: st.mem[("G", "cur")] = ("tup", t)

    def last(self, st): return st.mem[("G", "last")][2]

    def same_pos(self, eng, st, a, b): return self.eqn(eng, st, a[0], b[0]) and self.eqn(eng, st, a[1], b[1])

    def spec_call(self, eng, st, w, kind, e, pos, mode, call):
        if eng.quiet: return
        rep = self.rep
        fn = call["fn"].path.split("::")[-1]

        def ok(prop, what, cond, key, msg):
            return rep.ok(prop, what, cond, "%s:%s" % (w, key), "grammar operator %s (%s): %s" % (w, fn, msg))
        if self.root == "pratt_go":
            return self.spec_pratt_call(eng, st, kind, e, pos, mode, ok)
        if self.root == "parse":
            ok("C07", "start rule parsed at the first token", eqv(eng, st, e, self.start_rule) and self.same_pos(eng, st, pos, self.P), "start", "the start rule is not parsed at the beginning of the token stream")
            return
        v = st.vars.get(self.rule[1])
        if not isinstance(v, int):
            ok("C07", "call under a known operator", False, "unknown", "nested call before the operator is known")
            return
        self.variant = v
        n = st.mem[("G", "n")][1]
        cur = st.mem[("G", "cur")][1]
        ns, nf = aff(n[0]), aff(n[1])
        zero = lambda a: eng.holds(st, a) and eng.holds(st, L.neg(a))
        pm = ("b", self.mode)
        x = lambda name: self.xfield(eng, name)
        prop = "C07"
        if w in ("And", "Or"):
            parts = x("0")
            want = eng.index(st, parts, num(ns if w == "And" else nf))
            ok(prop, "%s tries its parts in order" % w, kind == "expr" and eqv(eng, st, e, want), "order", "the parts are not tried one after another in the order of the grammar")
            ok(prop, "%s stops after the first %s" % (w, "failure" if w == "And" else "success"), zero(nf if w == "And" else ns), "stop", "another part is tried although the outcome is decided")
            ok(prop, "%s position" % w, self.same_pos(eng, st, pos, cur if w == "And" else self.P), "pos",
               "a part is not parsed %s" % ("where the previous one ended" if w == "And" else "at the start of the alternatives"))
            ok("C04", "%s keeps the mode" % w, mode == pm, "mode", "lookahead mode changes for a part")
            self.scope(eng, st, w, ok)
        elif w == "Rep":
            ok("C07 C11", "Rep body", kind == "expr" and eqv(eng, st, e, x("0")), "body", "something other than the body is repeated")
            ok("C07 C11", "Rep stops", zero(nf), "stop", "the body is tried again after it failed")
            ok("C07 C11", "Rep position", self.same_pos(eng, st, pos, cur), "pos", "an iteration does not start where the previous one ended")
            ok("C04", "Rep mode", mode == pm, "mode", "lookahead mode changes for the body")
            self.scope(eng, st, w, ok)
        elif w in ("Pub", "PubReplace", "Opt", "Enter", "Exit", "Call", "Var", "Cached", "Not"):
            body = {"Pub": "body", "PubReplace": "body", "Opt": "0", "Enter": "1", "Exit": "1", "Call": "0", "Cached": "0", "Not": "0"}.get(w)
            if w == "Var":
                slot = eng.index(st, self.p0["args"], x("0"))
                want = eng.fld(slot, 0, "0", "Some")
                ok("C05", "Var reads its argument", kind == "expr" and eqv(eng, st, e, want), "body", "the parameter does not stand for the argument of the innermost call")
            else:
                ok(prop, "%s body" % w, kind == "expr" and eqv(eng, st, e, x(body)), "body", "does not parse its body")
            ok(prop, "%s calls once" % w, zero(ns) and zero(nf), "once", "parses its body more than once")
            ok(prop, "%s position" % w, self.same_pos(eng, st, pos, self.P), "pos", "does not parse its body where it was asked to")
            if w == "Pub":
                isr = eng.decide(st, ("s", x("replaceable")[1])) if x("replaceable")[0] == "s" else None
                rp = self.get(st, "replacement")
                if isr is None: ok(prop, "replacement handling depends on the node", self.var_some(eng, st, rp) == 0 and eqv(eng, st, rp, self.p0["replacement"]), "fresh", "a pending replacement is kept or dropped without regard to whether the node is replaceable")
                elif isr is True: ok(prop, "replaceable node starts without replacement", self.var_some(eng, st, rp) == 0, "fresh", "a replacement recorded before a replaceable node started is applied to it")
                elif isr is False: ok(prop, "other node keeps the replacement", eqv(eng, st, rp, self.p0["replacement"]), "keep", "a pending replacement is dropped by a node that is not replaceable")
            if w == "Not": ok("C04", "Not uses lookahead", mode == TRUE, "mode", "the negative lookahead runs outside of lookahead mode")
            else: ok("C04", "%s keeps the mode" % w, mode == pm, "mode", "lookahead mode changes for the body")
            self.scope(eng, st, w, ok)
        elif w == "Layer":
            tot = L.add(ns, nf)
            if zero(tot):
                ok(prop, "Layer delimiter", kind == "expr" and eqv(eng, st, e, x("0")) and self.same_pos(eng, st, pos, self.P), "first", "does not measure the layer first")
                ok("C04", "Layer measures in lookahead", mode == TRUE, "mode", "the layer is measured outside of lookahead mode")
            else:
                c0 = st.mem.get(("G", "c", 0))
                good = c0 is not None and c0[1][0] == TRUE and not tot[0] and tot[1] == 1
                ok(prop, "Layer body", good and kind == "expr" and eqv(eng, st, e, x("1")), "body", "does not parse its body after the layer was measured")
                if good:
                    ok(prop, "Layer limits its body", self.same_pos(eng, st, pos, (self.P[0], c0[1][2][1][0])), "limit", "the body is not confined to the measured layer")
                ok("C04", "Layer body mode", mode == pm, "bodymode", "lookahead mode changes for the body")
            self.scope(eng, st, w, ok)
        elif w == "WithSkip":
            if mode == TRUE and eqv(eng, st, e, x("0")) and not (self.mode and self.last(st) == 1 and eqv(eng, st, e, x("1"))) and not (self.mode and st.mem.get(("G", "guard")) == TRUE):
                at = st.mem[("G", "at")][1]
                if self.last(st) == 0: good = self.same_pos(eng, st, pos, self.P)
                else: good = self.same_pos(eng, st, pos, (num(L.shift(aff(at[0]), 1)), at[1]))
                ok("C07 C11", "WithSkip skips one token at a time", kind == "expr" and good, "skip", "the guard is not tried at every token in turn")
                st.mem[("G", "guard")] = TRUE
            else:
                at = st.mem[("G", "at")][1]
                ok("C07 C11", "WithSkip body", kind == "expr" and eqv(eng, st, e, x("1")) and self.last(st) == 1 and self.same_pos(eng, st, pos, at), "body", "the body is not parsed where its guard matched")
                ok("C04", "WithSkip body mode", mode == pm, "bodymode", "lookahead mode changes for the body")
                st.mem[("G", "guard")] = FALSE
            if not self.mode and mode == FALSE or True:
                self.skipped(eng, st, w, ok, pos)
            self.scope(eng, st, w, ok)
        elif w == "Pratt":
            tb = x("0")
            if kind == "pratt":
                ok("C06", "Pratt starts at the lowest priority", zero(ns) and zero(nf) and e[1] == const(0), "prio", "an operator expression does not admit all operators at the top level")
                ok("C06", "Pratt uses its table", self.same_table(eng, st, e[0], tb), "table", "another operator table is used")
                ok(prop, "Pratt position", self.same_pos(eng, st, pos, self.P), "pos", "does not parse where it was asked to")
            else:
                ok("C06", "Pratt", False, "direct", "calls a rule directly")
            ok("C04", "Pratt keeps the mode", mode == pm, "mode", "lookahead mode changes")
            self.scope(eng, st, w, ok)
        elif w == "Inject":
            tot = L.add(ns, nf)
            if zero(tot):
                ok(prop, "Inject prefix", kind == "expr" and eqv(eng, st, e, x("0")) and self.same_pos(eng, st, pos, self.P), "prefix", "does not parse its prefix first")
            else:
                ok(prop, "Inject body", kind == "expr" and eqv(eng, st, e, x("1")) and zero(nf) and zero(L.shift(ns, -1)) and self.same_pos(eng, st, pos, cur), "body", "does not parse its body after the prefix")
            ok("C04", "Inject keeps the mode", mode == pm, "mode", "lookahead mode changes")
            self.scope(eng, st, w, ok)
        else:
            ok(prop, "%s parses nothing" % w, False, "call", "runs another rule")

    def same_table(self, eng, st, ref, box):
        """ref points at the contents of the box held by the operator"""
        v = ref
        for _ in range(6):
            if v == box: return True
            if v[0] in ("ref", "rv"):
                v2 = eng.load(st, v)
                if v2 == v: return False
                v = v2
            elif v[0] == "s":
                d = eng.T.structs[v[1]]
                if d[0] == "*": v = ("s", d[1][1])
                elif d[0] == "f" and d[2] in ("0", "pointer") and d[3][0] == "T": v = ("s", d[3][1])
                else: return False
            else: return False
        return False

    def skipped(self, eng, st, w, ok, pos):
        if self.mode: return
        suf = self.suffix(eng, st)
        if suf is None: return
        # what was appended so far covers the skipped tokens and sits in (at most) one error node
        m = eng.measure("#ntok", ("seq", suf))
        d = L.add(aff(pos[0]), aff(self.P[0]), -1)
        good = m is not None and eng.holds(st, L.add(m, d, -1)) and eng.holds(st, L.add(d, m, -1))
        ok("C01", "WithSkip keeps the skipped tokens", good, "kept", "skipped tokens are not all in the event log when the next attempt starts")
        lvl = self.nested(eng, st, suf)
        ok("C03", "WithSkip balanced while skipping", lvl is not None, "nest", "the error node is not well nested when the next attempt starts")
        ok("C03", "WithSkip closes the error before the body", lvl is not None and lvl == ((), 0), "closed", "the error node that collects skipped tokens is still open when the next attempt starts")

    def scope(self, eng, st, w, ok):
        """contexts and arguments a nested rule sees"""
        ctx, args = self.get(st, "contexts"), self.get(st, "args")
        if w in ("Enter", "Exit"):
            want = eng.upd_proj(st, self.p0["contexts"], (("x", self.xfield(eng, "0")),), ("b", w == "Enter"))
            ok("C05", "%s sets its context for the body" % w, eqv(eng, st, ctx, want), "ctx", "the body does not see its context as %s" % ("entered" if w == "Enter" else "left"))
        else:
            ok("C05", "%s keeps contexts" % w, eqv(eng, st, ctx, self.p0["contexts"]), "ctx", "changes the contexts seen by a nested rule")
        if w == "Call":
            n = self.xfield(eng, "1")
            k = st.mem.get(("G", "argk"))
            ln = eng.seqlen(n)
            done = k is not None and eqv(eng, st, k, num(ln))
            cell = st.mem.get(("G", "argcell"))
            if done and cell is not None:
                # (the list may have been built elsewhere and put in place)
                done = cell[1] in st.mem and eqv(eng, st, eng.load(st, cell), args) or eqv(eng, st, st.mem.get(("G", "argval"), const(0)), args)
            ok("C05", "Call binds every argument", done, "bind", "not every argument is bound when the called rule starts")
        else:
            ok("C05", "%s keeps arguments" % w, eqv(eng, st, args, self.p0["args"]), "args", "changes the arguments seen by a nested rule")

    def on_write(self, eng, st, cell, proj, val, fn, span):
        """argument binding of Call"""
        if self.root == "pratt_go":
            self.pratt_write(eng, st, cell, proj, val)
            return
        if self.root != "parse_expr" or self.rule is None: return
        if st.vars.get(self.rule[1]) != self.ex["Call"]: return
        if not proj or proj[-1][0] != "x" or val[0] != "adt" or val[1] != OPTION: return
        self.variant = self.ex["Call"]
        lst = self.xfield(eng, "1")
        k = st.mem.get(("G", "argk"), const(0))
        it = eng.index(st, lst, k)
        slot = eng.fld(it, 0, "0")
        a = eng.fld(it, 1, "1")
        if not eng.quiet:
            r = self.rule_of(eng, st, a)
            good = eqv(eng, st, proj[-1][1], slot) and val[2] == 1
            v = None
            for i, x in st.vars.items():
                if x == self.ex["Var"] and eqv(eng, st, ("s", i), r): v = ("s", i)
            if v is not None:
                want = eng.fld(eng.index(st, self.p0["args"], eng.fld(r, 0, "0", "Var")), 0, "0", "Some")
                good2 = good and eqv(eng, st, val[3][0], want)
                self.rep.ok("C05", "Call resolves forwarded parameters in the caller's frame", good2, "Call:forward",
                            "grammar operator Call (%s): an argument that is itself a parameter is not resolved to the caller's argument" % fn.name)
            else:
                good2 = good and eqv(eng, st, val[3][0], a)
                self.rep.ok("C05", "Call binds the k-th argument to its slot", good2, "Call:slot", "grammar operator Call (%s): an argument is bound to the wrong slot or value" % fn.name)
        st.mem[("G", "argk")] = num(L.shift(aff(k), 1))
        st.mem[("G", "argcell")] = ("ref", cell, tuple(proj[:-1]))
        st.mem[("G", "argval")] = eng.upd_proj(st, eng.load(st, st.mem[("G", "argcell")]), (proj[-1],), val)

    # ---------------------------------------------------------- outcomes
    def suffix(self, eng, st):
        ch = eng.seq(self.get(st, "events"))
        if self.root == "parse": return ch
        if not ch or ch[0] != self.E0: return None
        return ch[1:]

    def check_common(self, eng, st, ret, w):
        rep = self.rep
        ok = lambda prop, what, cond, key, msg: rep.ok(prop, "%s: %s" % (w, what), cond, "%s:%s" % (w, key), "grammar operator %s: %s" % (w, msg))
        suf = self.suffix(eng, st)
        if not ok("C03", "earlier events are kept", suf is not None, "prefix", "events recorded before the operator started are lost or changed"): return None
        for n, prop, what in (("contexts", "C05", "contexts"), ("args", "C05", "rule arguments"), ("predicate_mode", "C04", "lookahead mode")):
            ok(prop, "%s restored" % what, eqv(eng, st, self.get(st, n), self.p0[n] if n != "predicate_mode" else ("b", self.mode)), "restore-" + n, "%s are not as before when the operator returns" % what)
        for n in ("grammar", "text", "tokens", "non_ws_indexes", "cache"):
            ok("C03", "%s unchanged" % n, self.get(st, n) == self.p0[n], "fixed-" + n, "%s changes during parsing" % n)
        if self.mode:
            ok("C04", "lookahead leaves the event log alone", suf == (), "events", "the event log is changed during lookahead")
        if ret[0] != "adt": raise CheckError("undecided result of %s" % w)
        if ret[2] == 0:
            ok("C03", "failure leaves no events", suf == (), "none-events", "events stay in the log although the operator failed")
            for n in ("prev", "replacement"):
                ok("C03", "failure restores %s" % n, eqv(eng, st, self.get(st, n), self.p0[n]), "none-" + n, "%s is not as before although the operator failed" % n)
            return suf, None
        t = self.pos(eng, ret[3][0])
        ok("C01 C03 " + ("C08" if w == "Cached" else "C07"), "end of match within the range", self.le(eng, st, self.P[0], t[0]) and self.le(eng, st, t[0], self.P[1]) and self.eqn(eng, st, t[1], self.P[1]), "end", "the match ends outside of the range it was given: [%s, %s)" % (eng.show(t[0]), eng.show(t[1])))
        if not self.mode:
            lvl = self.nested(eng, st, suf)
            ok("C03", "appended events are well nested", lvl == ((), 0), "nest", "the events of a match are not properly nested (every started node finished exactly once)")
            m = eng.measure("#ntok", ("seq", suf))
            d = L.add(aff(t[0]), aff(self.P[0]), -1)
            ok("C01 C03", "appended tokens cover the match", m is not None and eng.holds(st, L.add(m, d, -1)) and eng.holds(st, L.add(d, m, -1)), "tokens",
               "the events of a match do not contain exactly the tokens it consumed (%s events vs %s tokens)" % (eng.show(num(m)) if m is not None else "?", eng.show(num(d))))
        return suf, t

    def err_suffix(self, suf):
        return len(suf) >= 2 and suf[-1][0] == "it" and suf[-1][1][2] == self.ev["End"] and suf[-2][0] == "it" and suf[-2][1][2] == self.ev["Start"]

    def is_error_ty(self, v): return v == const(0)

    def check_outcome(self, eng, st, ret):
        w = self.where(st)
        r = self.check_common(eng, st, ret, w)
        if r is None: return w
        suf, t = r
        rep = self.rep
        v = st.vars.get(self.rule[1])
        if not isinstance(v, int):
            rep.ok("C07", "operator known", False, "unknown-op", "parse_expr returns without looking at the grammar operator")
            return w
        self.variant = v
        ok = lambda what, cond, key, msg, prop="C07": rep.ok(prop, "%s: %s" % (w, what), cond, "%s:%s" % (w, key), "grammar operator %s: %s" % (w, msg))
        n = st.mem[("G", "n")][1]
        ns, nf = aff(n[0]), aff(n[1])
        last = self.last(st)
        cur = st.mem[("G", "cur")][1]
        zero = lambda a: eng.holds(st, a) and eng.holds(st, L.neg(a))
        x = lambda name: self.xfield(eng, name)
        same = lambda a, b: self.same_pos(eng, st, a, b)
        P = self.P
        ev = lambda k: ("it", k)
        items = lambda: [c for c in suf]
        fail = ret[2] == 0
        empty = ("c", "eq", L.add(aff(P[0]), aff(P[1]), -1), True)
        isEmpty = eng.decide(st, empty)
        live = not self.mode
        if w in ("Pub", "PubReplace", "Enter", "Exit", "Call", "Var"):
            if not ok("body decides", (last == 2) == fail and last != 0, "result", "succeeds or fails independently of its body"): return w
            if not fail: ok("match is the body's", same(t, cur), "end", "the match does not end where its body ended")
        if w == "Pub" and not fail:
            ty = self.ty_of(eng, st, x("ty"))
            if live:
                shape = len(suf) == 3 and suf[0][0] == "it" and suf[2][0] == "it" and suf[1][0] == "ck" and suf[0][1][2] == self.ev["Start"] and suf[2][1][2] == self.ev["End"]
                if ok("one node around the body", shape, "node", "the body is not wrapped in exactly one node"):
                    got = suf[0][1][3][0]
                    replaceable = eng.decide(st, ("s", x("replaceable")[1])) if x("replaceable")[0] == "s" else None
                    rp = st.mem.get(("G", "repl_after_body"))
                    rv = self.var_some(eng, st, rp)
                    if replaceable is True and rv == 1:
                        ok("replaced type", eqv(eng, st, got, self.ty_of(eng, st, eng.fld(rp, 0, "0", "Some"))), "ty-replaced", "a replaceable node does not get the replacement type its body asked for")
                    elif replaceable is False or rv == 0:
                        ok("declared type", eqv(eng, st, got, ty), "ty", "the node does not get its declared type")
                    else:
                        ok("type decided", False, "ty-undecided", "the node type does not depend on the replacement recorded by its body")
                    ok("no forward parent", self.var_some(eng, st, suf[0][1][3][1]) == 0, "fwd", "the node is re-parented")
            rep0, rep1 = st.mem.get(("G", "repl_after_body")), self.get(st, "replacement")
            isr = eng.decide(st, ("s", x("replaceable")[1])) if x("replaceable")[0] == "s" else None
            if isr is True: ok("replacement is used up", rep1[0] == "adt" and rep1[2] == 0 or self.var_some(eng, st, rep1) == 0, "used-up", "a replacement stays pending after the replaceable node it was meant for")
            else: ok("replacement is kept for the replaceable node", rep0 is not None and eqv(eng, st, rep0, rep1), "kept", "a pending replacement is lost or changed by a node that is not replaceable")
            pv = self.get(st, "prev")
            ok("prev is the node", pv[0] == "adt" and pv[2] == 1 and eqv(eng, st, pv[3][0], ty), "prev", "the parsed node is not remembered as the previous one")
        if w == "PubReplace" and not fail:
            rp = self.get(st, "replacement")
            ok("replacement recorded", rp[0] == "adt" and rp[2] == 1 and eqv(eng, st, rp[3][0], x("ty")), "replacement", "the replacement type is not recorded for the enclosing node")
            if live: ok("only the body's events", len(suf) == 1 and suf[0][0] == "ck", "events", "adds events of its own")
        if w in ("Enter", "Exit", "Call", "Var") and not fail and live:
            ok("only the body's events", len(suf) == 1 and suf[0][0] == "ck", "events", "adds events of its own")
        if w == "Or":
            if fail: ok("fails only when every alternative failed", zero(ns) and zero(L.add(nf, eng.seqlen(x("0")), -1)), "exhaust", "fails although an alternative was not tried or matched")
            else:
                ok("first matching alternative wins", last == 1 and zero(L.shift(ns, -1)) and same(t, cur), "first", "the result is not that of the first matching alternative")
                if live: ok("only the alternative's events", len(suf) == 1 and suf[0][0] == "ck", "events", "events other than those of the matching alternative are recorded")
        if w == "And":
            parts = eng.seqlen(x("0"))
            commit = x("1")
            cv = st.vars.get(commit[1]) if commit[0] == "s" else None
            if cv is None and ("G", "committed") in st.mem: cv = st.mem[("G", "committed")][2]
            complete = zero(L.add(ns, parts, -1))
            need = None
            if cv == 0: need = parts
            elif cv == 1: need = aff(eng.fld(commit, 0, "0", "Some"))
            elif not complete: ok("commit point consulted", False, "commit", "an incomplete sequence does not look at its commit point")
            if fail and need is not None:
                ok("fails only before the commit point", (last == 2 or (complete and cv == 1)) and eng.holds(st, L.shift(L.add(need, ns, -1), -1)), "fail", "fails although every part matched, or after the commit point")
            if not fail:
                ok("match ends at the last matched part", same(t, cur), "end", "the match does not end where the last matched part ended")
                if not complete and need is not None:
                    ok("incomplete only past the commit point", last == 2 and eng.holds(st, L.add(ns, need, -1)), "commit", "an incomplete sequence matches before its commit point")
                    if live: ok("incomplete match is marked by an error", self.err_suffix(suf) and self.is_error_ty(suf[-2][1][3][0]), "error", "an incomplete match past the commit point records no error")
                elif live and complete:
                    ok("complete match adds nothing", all(c[0] == "ck" for c in suf), "extra", "a complete match records extra events")
        if w == "Rep":
            ok("never fails", not fail, "fail", "fails")
            if not fail:
                ok("repeats until failure", last == 2, "until", "stops before its body fails")
                ok("end", same(t, cur), "end", "the match does not end where the last repetition ended")
                if live: ok("only the body's events", all(c[0] == "ck" for c in suf), "events", "adds events of its own")
        if w == "Opt":
            ok("never fails", not fail, "fail", "fails")
            if not fail:
                ok("end", last != 0 and same(t, cur if last == 1 else P), "end", "the match is neither its body's nor empty")
                if live: ok("only the body's events", suf == () if last == 2 else (len(suf) == 1 and suf[0][0] == "ck"), "events", "adds events of its own")
        if w == "Not":
            ok("negates its body", last != 0 and (last == 1) == fail, "neg", "does not succeed exactly when its body fails")
            if not fail: ok("consumes nothing", same(t, P), "end", "consumes input")
            ok("leaves no events", suf == (), "events", "a negative lookahead records events", "C04")
            for f2 in ("prev", "replacement"):
                ok("restores %s" % f2, eqv(eng, st, self.get(st, f2), self.p0[f2]), "look-" + f2, "%s is not restored after the lookahead" % f2, "C04")
        if w == "Eof":
            ok("matches exactly at the end", isEmpty is not None and isEmpty == (not fail), "eof", "does not match exactly at the end of its range")
            if not fail: ok("consumes nothing", same(t, P), "end", "consumes input"); ok("records nothing", suf == (), "events", "records events")
        if w in ("Any", "Token"):
            tok = self.token_at(eng, st, P[0])
            tty = eng.fld(tok, 0, "ty", "", "fall_parse::lex_engine::Token") if tok is not None else None
            want = self.ty_of(eng, st, x("0")) if w == "Token" else None
            same_ty = eng.decide(st, eng.cmp("Eq", want, tty)) if want is not None else True
            if fail: ok("fails only on mismatch", isEmpty is True or (w == "Token" and same_ty is False), "fail", "fails although the next token %s" % ("has the right type" if w == "Token" else "exists"))
            else:
                ok("matches one token", isEmpty is False and same(t, (num(L.shift(aff(P[0]), 1)), P[1])), "one", "does not consume exactly one token")
                ok("token type", same_ty is True, "type", "matches a token of another type")
                if live:
                    good = len(suf) == 1 and suf[0][0] == "it" and suf[0][1][2] == self.ev["Token"]
                    ok("one token event", good and suf[0][1][3][1] == const(1) and eqv(eng, st, suf[0][1][3][0], tty), "event", "does not record the token it consumed, with its own type")
        if w == "ContextualToken":
            txt = x("1")
            if not fail:
                d = L.add(aff(t[0]), aff(P[0]), -1)
                sw = self.starts_with(eng, st, txt)
                gn, gs = self.gget(st, "ctn"), self.gget(st, "cts")
                tl = self.strlen(eng, st, txt)
                ok("ends where the text ends", self.eqn(eng, st, t[0], num(L.add(aff(P[0]), aff(gn)))) and self.eqn(eng, st, gs, tl), "end", "does not end at the token where the keyword's text ends")
                ok("text matches", sw is True, "text", "matches although the text at this position is not the contextual keyword")
                if live:
                    good = len(suf) == 1 and suf[0][0] == "it" and suf[0][1][2] == self.ev["Token"]
                    ok("one event of the declared type", good and eqv(eng, st, suf[0][1][3][0], self.ty_of(eng, st, x("0"))), "event", "does not record one token of the declared type")
        if w == "Layer":
            c0, c1 = st.mem.get(("G", "c", 0)), st.mem.get(("G", "c", 1))
            if c0 is None: ok("measures", False, "calls", "returns without measuring its layer")
            elif c0[1][0] == FALSE: ok("fails with its delimiter", fail, "fail", "matches although its layer could not be measured")
            else:
                ok("matches with its delimiter", not fail, "fail2", "fails although its layer was measured")
                ok("parses its body", c1 is not None, "body", "does not parse its body")
                if not fail: ok("ends with its layer", same(t, c0[1][2][1]), "end", "does not end where the measured layer ends")
                if not fail and live and c1 is not None:
                    good = all(c[0] == "ck" for c in suf[:1])
                    left = L.add(aff(c0[1][2][1][0]), aff(c1[1][2][1][0] if c1[1][0] == TRUE else P[0]), -1)
                    none = eng.holds(st, L.neg(left))
                    extra = suf[1:] if c1[1][0] == TRUE else suf
                    if none: ok("no error when complete", extra == (), "noerr", "records an error although the body filled the layer")
                    else:
                        e_ok = len(extra) >= 2 and extra[0][0] == "it" and extra[0][1][2] == self.ev["Start"] and self.is_error_ty(extra[0][1][3][0]) and extra[-1][0] == "it" and extra[-1][1][2] == self.ev["End"]
                        some_left = eng.holds(st, L.shift(left, -1))
                        ok("leftovers are an error", (not some_left) or e_ok, "err", "tokens the body left over are not wrapped in an error node")
                        ok("leftovers decided", some_left or none, "undecided", "does not check whether the body filled the layer")
        if w == "WithSkip":
            if fail:
                at = st.mem[("G", "at")][1]
                ok("gives up only at the end", last != 0 and self.eqn(eng, st, at[0], P[1]), "giveup", "gives up before the end of its range")
            else:
                ok("ends with its body", last == 1 and st.mem.get(("G", "guard")) == FALSE and same(t, cur), "end", "matches without its body")
                if live and len(suf) > 1:
                    ok("skipped tokens are one error", suf[0][0] == "it" and suf[0][1][2] == self.ev["Start"] and self.is_error_ty(suf[0][1][3][0]) or suf[0][0] == "ck", "err", "skipped tokens are not in an error node")
        if w == "IsIn":
            b = eng.decide(st, self.as_cond(eng, eng.index(st, self.p0["contexts"], x("0"))))
            ok("tests its context", b is not None and b == (not fail), "ctx", "does not succeed exactly inside its context", "C05 C07")
            if not fail: ok("consumes nothing", same(t, P), "end", "consumes input"); ok("records nothing", suf == (), "events", "records events")
        if w == "PrevIs":
            if fail:
                n = eng.seqlen(eng.load(st, eng.deref(x("0"))) if x("0")[0] in ("ref", "rv") else x("0"))
                ok("fails only after comparing every listed type", self.var_some(eng, st, self.p0["prev"]) == 0 or self.eqn(eng, st, self.gget(st, "pk"), num(n)), "miss", "fails although the previous node's type was not compared with every listed one")
            if not fail:
                ok("consumes nothing", same(t, P), "end", "consumes input"); ok("records nothing", suf == (), "events", "records events")
                pv = self.p0["prev"]
                hit = st.vars.get(pv[1]) == 1 and self.prev_hit(eng, st, x("0"), eng.fld(pv, 0, "0", "Some"))
                ok("previous node has a listed type", hit, "hit", "matches although the previous node's type is not listed")
        if w == "Inject":
            if not fail and live: self.injected = getattr(self, "injected", 0) + (1 if len(suf) >= 2 and self.forwarded(eng, st, suf, 0, 1) else 0)
            if not ok("needs both parts", (last == 1 and zero(L.shift(ns, -2))) == (not fail), "both", "does not succeed exactly when prefix and body match"): return w
            if not fail:
                ok("ends with its body", same(t, cur), "end", "does not end where its body ended")
                c0 = st.mem[("G", "c", 0)][1]
                used = L.add(aff(c0[2][1][0]), aff(P[0]), -1)
                if live and len(suf) >= 2:
                    if eng.holds(st, L.shift(used, -1)):
                        ok("prefix moves into the body's node", self.forwarded(eng, st, suf, 0, 1), "fwd", "a non-empty prefix is not re-parented under the body's node")
                    elif eng.holds(st, L.neg(used)):
                        ok("empty prefix is left alone", suf[0][0] == "ck" and eng.T.structs[suf[0][1]][0] != "mod", "nofwd", "an empty prefix is re-parented")
                    else: ok("prefix emptiness decided", False, "fwd-undecided", "re-parents the prefix without looking whether it is empty")
        if w == "Cached":
            if fail: ok("fails with its body", last == 2, "fail", "fails although its body was not tried or matched")
            else:
                reuse = last == 0
                if live:
                    good = len(suf) == 2 and suf[0][0] == "it" and suf[0][1][2] == self.ev["Cached"] and suf[1][0] == "ck"
                    if ok("marker before the subtree", good, "marker", "the subtree is not preceded by its reuse marker", "C08"):
                        cv = suf[0][1][3]
                        ok("marker key", eqv(eng, st, cv[0], x("0")), "key", "the reuse marker does not carry the rule it was made for", "C08")
                        ok("marker length", self.eqn(eng, st, cv[1], num(eng.cklen(suf[1][1]))), "len", "the reuse marker does not carry the number of events of its subtree", "C08")
                        if reuse: self.check_reuse(eng, st, suf[1][1], t, ok)
                if not reuse: ok("match is the body's", same(t, cur), "end", "the match does not end where its body ended")
                else:
                    self.reuses = getattr(self, "reuses", 0) + 1
                    k = self.reuse_key(eng, st, t)
                    ok("reuse is keyed by position and rule", k, "reuse-key", "a cached match is taken from an entry that was not recorded for this text position and rule", "C08")
        if w == "Pratt":
            ok("result is the operator expression's", (last == 2) == fail and last != 0 and (fail or same(t, cur)), "result", "the result is not that of the operator expression", "C06")
            if live and not fail: ok("no events of its own", len(suf) == 1, "events", "adds events of its own", "C06")
        return w

    def check_reuse(self, eng, st, ck, t, ok):
        s = eng.T.structs[ck]
        x = self.salvaged(eng, s) if s[0] == "sl" else None
        ok("replays the salvaged events", x is not None, "replay", "the events replayed are not those of the cache entry", "C08")

    def reuse_key(self, eng, st, t):
        """t.0 - P.0 must be the token count of an entry looked up under (text position at P.0, rule)"""
        d = L.add(aff(t[0]), aff(self.P[0]), -1)
        if len(d[0]) != 1 or d[1] != 0 or d[0][0][1] != 1: return False
        s = eng.T.structs[d[0][0][0]]
        if s[0] != "f" or s[2] != "2": return False
        x = ("s", s[3][1])
        k = self.cache_entry_key(eng, x)
        if k is None: return False
        tbl, key = k
        if key[0] != "tup" or len(key[1]) != 2: return False
        posn = eng.fld(eng.index(st, self.p0["non_ws_indexes"], self.P[0]), 0, "0")
        return eqv(eng, st, key[1][0], posn) and eqv(eng, st, key[1][1], self.xfield(eng, "0"))

    def forwarded(self, eng, st, suf, i, j):
        """the first event of suf[i] carries forward_parent = distance to suf[j]"""
        c = suf[i]
        dist = ((), 0)
        for k in range(i, j):
            dist = L.shift(dist, 1) if suf[k][0] == "it" else L.add(dist, eng.cklen(suf[k][1]))
        if c[0] == "it":
            fp = c[1][3][1] if c[1][2] == self.ev["Start"] else None
        else:
            s = eng.T.structs[c[1]]
            if s[0] != "mod" or s[2] != const(0): return False
            nv = s[3]
            if nv[0] == "adt": fp = nv[3][1] if nv[2] == self.ev["Start"] else None
            elif nv[0] == "w": fp = dict(nv[2]).get(("Start", "forward_parent"))
            else: fp = None
        if fp is None or fp[0] != "adt" or fp[2] != 1: return False
        return self.eqn(eng, st, fp[3][0], num(dist))

    def var_some(self, eng, st, v):
        if v is None: return None
        return eng.var_of(st, v)

    def as_cond(self, eng, v): return v

    def token_at(self, eng, st, i):
        idx = eng.fld(eng.index(st, self.p0["non_ws_indexes"], i), 1, "1")
        return eng.index(st, eng.getcell(st, ("D", self.p0["tokens"][1])), idx)

    def strlen(self, eng, st, txt):
        return num(eng.seqlen(txt))

    def starts_with(self, eng, st, txt):
        for i, b in st.bools.items():
            s = eng.T.structs[i]
            if s[0] == "app" and s[1].endswith("::starts_with"): return b
        return None

    def prev_hit(self, eng, st, lst, prev):
        """is prev provably equal to node_types[lst[i]] for some i of the list?"""
        for d in st.facts:
            pass
        nt = eng.load(st, eng.deref(self.node_types))
        ids = set()
        for (t, c) in st.facts:
            ids.update(i for i, _ in t)
        for i in ids:
            s = eng.T.structs[i]
            if s[0] == "elem" and eqv(eng, st, s[1], nt) and eng.holds(st, L.add(aff(("s", i)), aff(prev), -1)) and eng.holds(st, L.add(aff(prev), aff(("s", i)), -1)):
                k = s[2]
                if k[0] == "s" and eng.T.structs[k[1]][0] == "elem" and eqv(eng, st, eng.T.structs[k[1]][1], lst): return True
        return False

    # ---------------------------------------------------------- operator precedence (pratt_go)
    # ghost: ph phase, k next candidate, lhs / node event indexes, fl flags of the current step
    #   0 atoms, 1 prefix operators, 2 prefix matched (operand expected), 3 infix operators,
    #   4 infix matched, 41/40 .. and its has_rhs is known to be true/false, 5 operand parsed,
    #   6 operand missing
    def gset(self, st, **kw):
        for k, v in kw.items():
            st.mem[("G", k)] = ("adt", "mon", v, ()) if k in ("ph", "fwd", "err", "prevok") else v

    def gget(self, st, k):
        v = st.mem[("G", k)]
        return v[2] if v[0] == "adt" else v

    def tfield(self, eng, name):
        fs = self.F.adt("fall_parse::PrattTable")["variants"][0]["fields"]
        i = next((k for k, f in enumerate(fs) if f["name"] == name), None)
        if i is None: raise CheckError("anchor missing: field PrattTable.%s" % name)
        return eng.fld(self.table, i, name, "", "fall_parse::PrattTable")

    def ofield(self, eng, st, lst, k, name):
        on = "fall_parse::Prefix" if lst == "prefixes" else "fall_parse::Infix"
        fs = self.F.adt(on)["variants"][0]["fields"]
        i = next((j for j, f in enumerate(fs) if f["name"] == name), None)
        if i is None: raise CheckError("anchor missing: field %s.%s" % (on, name))
        return eng.fld(eng.index(st, self.tfield(eng, lst), k), i, name, "", on)

    def pratt_init(self, eng, st):
        self.gset(st, ph=0, k=const(0), ks=const(0), lhs=num(eng.cklen(self.E0[1])), node=const(0), fwd=0, err=0, prevok=0)
        st.mem.pop(("G", "n"), None)

    def on_assume(self, eng, st, c, val):
        if self.root == "parse_expr": return self.expr_assume(eng, st, c, val)
        if self.root != "pratt_go": return
        ph = self.gget(st, "ph")
        if ph in (3, 40, 5, 6, 7, 8):
            k = self.gget(st, "k")
            prio = self.ofield(eng, st, "infixes", k, "priority")
            if eng.holds(st, L.shift(L.add(aff(self.min), aff(prio), -1), -1)):
                self.gset(st, k=num(L.shift(aff(k), 1)))
        elif ph == 4:
            h = eng.decide(st, self.ofield(eng, st, "infixes", self.gget(st, "ks"), "has_rhs"))
            if h is not None: self.gset(st, ph=41 if h else 40)

    def expr_assume(self, eng, st, c, val):
        w = self.where(st)
        if w == "ContextualToken":
            # ghost: total length of the tokens the keyword's text has been compared with so far
            n = self.gget(st, "ctn")
            tok = self.token_at(eng, st, num(L.add(aff(self.P[0]), aff(n))))
            ln = eng.fld(tok, 1, "len", "", "fall_parse::lex_engine::Token")
            if set(self.cond_ids(eng, c)) & {i for i, _ in aff(ln)[0]}:
                self.gset(st, ctn=num(L.shift(aff(n), 1)), cts=num(L.add(aff(self.gget(st, "cts")), aff(ln))))

        if w == "PrevIs":
            k = self.gget(st, "pk")
            nt = self.ty_of(eng, st, eng.index(st, self.xfield_of(eng, "PrevIs", 0), k))
            if set(self.cond_ids(eng, c)) & {i for i, _ in aff(nt)[0]}: self.gset(st, pk=num(L.shift(aff(k), 1)))

    def xfield_of(self, eng, op, i): return eng.fld(self.rule, i, str(i), op)

    def cond_ids(self, eng, c):
        if c[0] == "c" and c[1] in ("ge", "eq"): return [i for i, _ in c[2][0]]
        if c[0] == "c" and c[1] == "not": return self.cond_ids(eng, c[2])
        return []

    def step_done(self, eng, st, ok):
        """the previous operator application must be complete"""
        ph = self.gget(st, "ph")
        if ph in (40, 5, 6):
            if not self.mode:
                ok("C06", "operator takes its left operand", self.gget(st, "fwd") == 1, "fwd", "the node of an infix operator does not become the parent of its left operand")
                ok("C06 C07", "missing operand is an error", (self.gget(st, "err") == 1) == (ph == 6), "err", "an error is recorded for a complete operator expression or missing for an incomplete one")
            ok("C06", "prev after operator", self.gget(st, "prevok") == 1, "prev", "the operator node is not remembered as the previous one")
        elif ph == 7:
            ok("C06", "prev after prefix operator", self.gget(st, "prevok") == 1, "pre-prev", "the prefix operator node is not remembered as the previous one")
        elif ph == 8: pass
        else:
            ok("C06", "operator applications complete", False, "partial", "continues with an operator whose right operand was neither parsed nor ruled out")

    def spec_pratt_call(self, eng, st, kind, e, pos, mode, ok):
        ph = self.gget(st, "ph")
        k = self.gget(st, "k")
        cur = st.mem[("G", "cur")][1]
        ok("C04", "keeps the mode", mode == ("b", self.mode), "mode", "lookahead mode changes")
        self.scope(eng, st, "pratt", ok)
        suf = self.suffix(eng, st) or ()
        last = suf[-1][1] if suf and suf[-1][0] == "it" else None
        started = lambda ty: last is not None and last[2] == self.ev["Start"] and eqv(eng, st, last[3][0], self.ty_of(eng, st, ty)) and self.var_some(eng, st, last[3][1]) == 0
        inside = lambda lst: self.lt(eng, st, k, eng.seqlen(self.tfield(eng, lst)))
        if kind == "expr":
            if ph == 0 and inside("atoms") and eqv(eng, st, e, eng.index(st, self.tfield(eng, "atoms"), k)):
                ok("C06", "atoms first", self.same_pos(eng, st, pos, self.P), "atom-pos", "an atom is not parsed at the start of the expression")
                if not self.mode: ok("C03", "atom adds to a clean log", suf == (), "atom-log", "events of a failed attempt are still in the log when an atom is tried")
                return
            if ph in (0, 1) and not (ph == 0 and inside("atoms")):
                if ph == 0:
                    ok("C06", "prefixes after atoms", self.eqn(eng, st, k, num(eng.seqlen(self.tfield(eng, "atoms")))), "atoms", "prefix operators are tried before every atom failed")
                    k = const(0)
                good = self.lt(eng, st, k, eng.seqlen(self.tfield(eng, "prefixes"))) and eqv(eng, st, e, self.ofield(eng, st, "prefixes", k, "op"))
                ok("C06", "prefix operators in order", good and self.same_pos(eng, st, pos, self.P), "prefix", "prefix operators are not tried in order at the start of the expression")
                if not self.mode:
                    ok("C06", "prefix operator node", len(suf) == 1 and started(self.ofield(eng, st, "prefixes", k, "ty")), "prefix-node", "a prefix operator does not start its own node")
                return
            if ph in (40, 4, 41, 5, 6, 7, 8):
                self.step_done(eng, st, ok)
            elif ph != 3:
                ok("C06", "operator order", False, "order", "operators, operands and atoms are not parsed in the order of an operator expression")
                return
            # next infix candidate: everything before it was tried or has too low a priority
            j = k
            inf = self.tfield(eng, "infixes")
            good = self.lt(eng, st, j, eng.seqlen(inf)) and eqv(eng, st, e, self.ofield(eng, st, "infixes", j, "op"))
            ok("C06", "infix operators in order", good, "infix", "an infix operator is skipped, or operators are not tried in order")
            if good:
                ok("C06", "minimal priority respected", self.le(eng, st, self.min, self.ofield(eng, st, "infixes", j, "priority")), "min", "an infix operator of lower priority than allowed is considered")
            ok("C06", "infix position", self.same_pos(eng, st, pos, cur), "infix-pos", "an infix operator is not parsed right after its left operand")
            if not self.mode and good:
                ok("C06", "infix operator node", started(self.ofield(eng, st, "infixes", j, "ty")), "infix-node", "an infix operator does not start its own node")
                ok("C03", "clean log at infix operator", self.nested(eng, st, suf) == ((), 1), "infix-log", "events of a failed attempt are still in the log when an infix operator is tried")
            return
        # operand
        tab, prio = e
        ok("C06", "operand uses the same table", self.same_table(eng, st, tab, self.table) or eqv(eng, st, tab, self.tableref), "table", "an operand is parsed with another operator table")
        ok("C06", "operand position", self.same_pos(eng, st, pos, cur), "operand-pos", "an operand is not parsed right after its operator")
        if ph == 2:
            want = self.ofield(eng, st, "prefixes", k, "priority")
            ok("C06", "prefix operand priority", self.eqn(eng, st, prio, want), "prefix-prio", "the operand of a prefix operator does not bind as tightly as the operator")
        elif ph == 41:
            want = num(L.shift(aff(self.ofield(eng, st, "infixes", self.gget(st, "ks"), "priority")), 1))
            ok("C06", "right operand binds tighter", self.eqn(eng, st, prio, want), "rhs-prio", "the right operand does not admit exactly the operators of higher priority (left associativity)")
        else:
            ok("C06", "operand after operator", False, "operand", "an operand is parsed without an operator that takes one")

    def lt(self, eng, st, a, b): return eng.holds(st, L.shift(L.add(aff(b) if not (isinstance(b, tuple) and len(b) == 2 and isinstance(b[0], tuple)) else b, aff(a), -1), -1))

    def pratt_log(self, eng, st, okk, pos, t, name, e):
        """advance the monitor over a nested call"""
        ph, k = self.gget(st, "ph"), self.gget(st, "k")
        nxt = num(L.shift(aff(k), 1))
        if name != PG:
            if ph == 0 and self.lt(eng, st, k, eng.seqlen(self.tfield(eng, "atoms"))):
                if okk: self.gset(st, ph=8, k=const(0))
                else: self.gset(st, k=nxt)
            elif ph in (0, 1):
                if ph == 0: k = const(0); nxt = const(1)
                if okk: self.gset(st, ph=2, k=k, ks=k, prevok=0)
                else: self.gset(st, ph=1, k=nxt)
            else:
                if okk:
                    n = num(L.shift(aff(num(eng.seqlen(("seq", self.log_before)))), -1)) if not self.mode else const(0)
                    self.gset(st, ph=4, ks=k, node=n, fwd=0, err=0, prevok=0, k=const(0))
                else: self.gset(st, ph=3, k=nxt)
        else:
            if ph == 2:
                if okk: self.gset(st, ph=7, k=const(0), prevok=0)
                else: self.gset(st, ph=1, k=nxt)
            elif okk: self.gset(st, ph=5, prevok=0)
            else: self.gset(st, ph=6)

    def pratt_write(self, eng, st, cell, proj, val):
        if cell != ("P", 0) or not proj: return
        f = proj[0][2] if proj[0][0] == "f" else None
        ph = self.gget(st, "ph")
        if f == "prev":
            okv = 0
            if len(proj) == 1 and self.var_some(eng, st, val) == 1:
                got = eng.fld(val, 0, "0", "Some")
                if ph in (4, 40, 41, 5, 6): okv = eqv(eng, st, got, self.ty_of(eng, st, self.ofield(eng, st, "infixes", self.gget(st, "ks"), "ty")))
                elif ph == 7: okv = eqv(eng, st, got, self.ty_of(eng, st, self.ofield(eng, st, "prefixes", self.gget(st, "ks"), "ty")))
            self.gset(st, prevok=1 if okv else 0)
        elif f == "events" and len(proj) == 1 and val[0] == "seq":
            ch = val[1]
            old = eng.seq(self.get(st, "events"))
            if len(ch) == len(old) + 1 and ch[-1][0] == "it" and ch[:-1] == old:
                it = ch[-1][1]
                if it[2] == self.ev["Start"] and self.is_error_ty(it[3][0]) and ph in (4, 40, 41, 5, 6): self.gset(st, err=1)
        elif f == "events" and len(proj) >= 2 and proj[1][0] == "x":
            if self.var_some(eng, st, val) == 1 and len(proj) > 2 and proj[-1][0] == "f" and proj[-1][2] == "forward_parent":
                lhs, node = self.gget(st, "lhs"), self.gget(st, "node")
                good = ph in (4, 40, 41, 5, 6) and self.eqn(eng, st, proj[1][1], lhs) and self.eqn(eng, st, eng.fld(val, 0, "0", "Some"), num(L.add(aff(node), aff(lhs), -1)))
                if not eng.quiet:
                    self.rep.ok("C06", "re-parents exactly the left operand", good, "pratt:parent", "operator expressions: a node other than the operator's left operand is moved under the operator (or to the wrong parent)")
                if good: self.gset(st, fwd=1, lhs=node)

    def check_pratt_outcome(self, eng, st, ret):
        r = self.check_common(eng, st, ret, "pratt")
        if r is None: return
        suf, t = r
        rep = self.rep
        ok = lambda prop, what, cond, key, msg: rep.ok(prop, "operator expression: %s" % what, cond, "pratt:%s" % key, "operator expressions: %s" % msg)
        ph, k = self.gget(st, "ph"), self.gget(st, "k")
        at_end = lambda lst, k: self.eqn(eng, st, k, num(eng.seqlen(self.tfield(eng, lst))))
        if ret[2] == 0:
            good = (ph == 1 and at_end("prefixes", k)) or (ph == 0 and at_end("atoms", k) and at_end("prefixes", const(0)))
            ok("C06", "fails only without atom and prefix", good, "fail", "fails although an atom or prefix operator was not tried or matched")
            return
        ok("C06", "result position", self.same_pos(eng, st, t, st.mem[("G", "cur")][1]), "end", "the match does not end where its last operand or operator ended")
        if ph == 3:
            ok("C06", "ends when no operator applies", at_end("infixes", k), "more", "stops although an admissible infix operator was not tried")
        else:
            self.step_done(eng, st, ok)
            ok("C06", "ends when no operator applies", at_end("infixes", k), "more", "stops although an admissible infix operator was not tried")


# ------------------------------------------------------------------------------- roots
def new_eng(F, M, ck):
    eng = Eng(F, M, ck)
    eng.copying = True
    eng.recursive_contract = set()
    ck.setup(eng)
    return eng


def root_args(ck, eng, fn, vals):
    """build the argument list of a root by parameter type"""
    out = []
    for tyj, name in fn.locals[1:fn.argc + 1]:
        out.append(vals(tyj, name))
    return out


def run_parse_expr(F, M, rep, mode):
    ck = ParserChecker(F, rep, "parse_expr")
    eng = new_eng(F, M, ck)
    st = St()
    ck.mode = mode
    ck.init_parser(eng, st, mode)
    p0, p1, e = eng.fresh("P.0"), eng.fresh("P.1"), eng.fresh("expr")
    ck.P = (p0, p1)
    eng.addfact(st, L.add(aff(p1), aff(p0), -1))
    eng.addfact(st, L.add(ck.N, aff(p1), -1))
    ck.rule = ck.rule_of(eng, st, e)
    ck.mon_init(eng, st)
    fn = F.fn(PE)

    def val(ty, name):
        s = ty["s"]
        if strip_ty(s) == PARSER: return ("ref", ("P", 0), ())
        if s == POS: return ck.mkpos(p0, p1)
        if s == "fall_parse::ExprRef": return e
        raise CheckError("anchor missing: unexpected parameter %s of %s" % (s, fn.path))
    outs = eng.run(fn, root_args(ck, eng, fn, val), st)
    return ck, eng, outs


def run_pratt_go(F, M, rep, mode):
    ck = ParserChecker(F, rep, "pratt_go")
    eng = new_eng(F, M, ck)
    st = St()
    ck.mode = mode
    ck.init_parser(eng, st, mode)
    p0, p1, mn, tb = eng.fresh("P.0"), eng.fresh("P.1"), eng.fresh("min_prior"), eng.fresh("table")
    ck.P, ck.min, ck.tableref = (p0, p1), mn, tb
    ck.table = eng.load(st, eng.deref(tb))
    eng.addfact(st, L.add(aff(p1), aff(p0), -1))
    eng.addfact(st, L.add(ck.N, aff(p1), -1))
    ck.mon_init(eng, st)
    ck.pratt_init(eng, st)
    fn = F.fn(PG)

    def val(ty, name):
        s = ty["s"]
        if strip_ty(s) == PARSER: return ("ref", ("P", 0), ())
        if s == POS: return ck.mkpos(p0, p1)
        if "PrattTable" in s: return tb
        if s == "u32": return mn
        raise CheckError("anchor missing: unexpected parameter %s of %s" % (s, fn.path))
    outs = eng.run(fn, root_args(ck, eng, fn, val), st)
    return ck, eng, outs


class RootChecker(ParserChecker):
    """`parse`: the parser starts on an empty log over exactly the non-whitespace tokens, and hands
    over one well-nested tree of events that covers all of them"""
    def setup(self, eng):
        super().setup(eng)
        eng.axioms = getattr(eng, "axioms", None)
        self.entered = False

    def ghost_init(self, eng, st):
        z = const(0)
        self.gset(st, wn=z, wsum=z, wbefore=z)
        st.mem[("G", "want")] = ("adt", "mon", 0, ())   # 0 nothing pending, 1 must be kept, 2 must not

    def intercept(self, eng, st, name, args, call):
        if name == PE: return self.contract(eng, st, name, args, call)
        if name.startswith("fall_tree::lang::Language::") and len(args) == 2:
            # classification of a token type
            eng.opaque[name] = eng.opaque.get(name, 0)
            ty = args[1]
            r = eng.app(name, *[eng.snap(st, a) for a in args])
            n = self.gget(st, "wn")
            tok = eng.index(st, eng.load(st, self.tokref), n)
            good = eqv(eng, st, ty, eng.fld(tok, 0, "ty", "", "fall_parse::lex_engine::Token"))
            if not eng.quiet:
                self.rep.ok("C01", "every token is classified once, in order", good and st.mem[("G", "want")][2] == 0, "root:classify", "tokens are not classified as whitespace one by one, in order")
            ln = eng.fld(tok, 1, "len", "", "fall_parse::lex_engine::Token")
            s = self.gget(st, "wsum")
            self.gset(st, wn=num(L.shift(aff(n), 1)), wbefore=s, wsum=num(L.add(aff(s), aff(ln))))
            st.mem[("G", "want")] = ("adt", "mon", 3, ())
            return [(st, r)]
        return None

    def on_assume(self, eng, st, c, val):
        """whitespace_like of the pending token becomes known"""
        if st.mem.get(("G", "want"), (0, 0, 0))[2] != 3: return
        i = c[1] if c[0] == "s" else c[2] if c[0] == "c" and c[1] == "t" else None
        if i is None: return
        s = eng.T.structs[i]
        if s[0] == "f" and s[2] == "whitespace_like":
            st.mem[("G", "want")] = ("adt", "mon", 0 if st.bools.get(i) else 1, ())

    def on_push(self, eng, st, ref, item, fn):
        if item[0] != "tup" or len(item[1]) != 2 or self.entered: return
        n = self.gget(st, "wn")
        if not eng.quiet:
            ok = lambda what, c, key, m: self.rep.ok("C01", what, c, "root:" + key, m)
            ok("only non-whitespace tokens are kept", st.mem[("G", "want")][2] == 1, "keep", "a whitespace token is handed to the parser (or a token twice)")
            ok("kept token is the classified one", self.eqn(eng, st, item[1][1], num(L.shift(aff(n), -1))), "index", "the parser sees a token at another index than its own")
            ok("kept token has its text offset", self.eqn(eng, st, item[1][0], self.gget(st, "wbefore")), "offset", "the text offset recorded for a token is not the total length of the tokens before it")
        st.mem[("G", "want")] = ("adt", "mon", 0, ())

    def parse_entry(self, eng, st, pref, pos):
        self.pref = pref
        if not self.entered:
            self.entered = True
        p = {n: self.get(st, n) for n in self.pf}
        self.p0 = p
        self.N = eng.seqlen(p["non_ws_indexes"])
        self.node_types = self.gfield(eng, eng.load(st, eng.deref(p["grammar"])), "node_types")
        self.rules = None
        if eng.quiet: return
        rep = self.rep
        ok = lambda prop, what, c, key, m: rep.ok(prop, "parse: " + what, c, "root:" + key, "the parser is started wrongly: " + m)
        ok("C01", "starts at the first token", self.same_pos(eng, st, pos, (const(0), num(self.N))), "range", "the token range is not the whole input")
        ok("C01", "all tokens classified", self.eqn(eng, st, self.gget(st, "wn"), num(eng.seqlen(eng.load(st, self.tokref)))), "all", "some tokens are never classified")
        ok("C01", "pending token", st.mem[("G", "want")][2] == 0, "pending", "a token that is not whitespace is not handed to the parser")
        ok("C03", "empty log", eng.seq(p["events"]) == (), "log", "the event log is not empty")
        ok("C04", "not in lookahead", p["predicate_mode"] == FALSE, "mode", "lookahead mode is on")
        for n in ("prev", "replacement"):
            ok("C05", "no %s" % n, self.var_some(eng, st, p[n]) == 0, n, "%s is set" % n)
        for n, z in (("contexts", FALSE), ("args", NONE)):
            v = p[n]
            good = (v[0] == "arr" and all(x == z for x in v[1])) or (v[0] == "seq" and all(c == ("it", z) for c in v[1])) or eng.index(st, v, eng.fresh("i")) == z
            ok("C05", "no %s" % n, good, n, "%s are set" % n)

    def log(self, eng, st, okk, pos, t, name, e, mode):
        st.mem[("G", "last")] = ("adt", "mon", 1 if okk else 2, ())
        st.mem[("G", "cur")] = ("tup", t if okk else pos)

    def spec_call(self, eng, st, w, kind, e, pos, mode, call):
        if eng.quiet: return
        g = eng.load(st, eng.deref(self.get(st, "grammar")))
        self.rep.ok("C07", "parse: start rule", eqv(eng, st, e, self.gfield(eng, g, "start_rule")) and self.last(st) == 0, "root:start", "the input is not parsed by the start rule (exactly once)")
        self.start_rule = e

    def is_start(self, eng, st, name, e): return True   # the start rule is a node (checked on the tables)

    def check(self, eng, st, ret):
        ev = ret[1][0] if ret[0] == "tup" else None
        if ev is None: raise CheckError("unexpected result of parse")
        ch = eng.seq(ev)
        rep = self.rep
        ok = lambda prop, what, c, key, m: rep.ok(prop, "parse: " + what, c, "root:" + key, "the events handed over by the parser " + m)
        lvl = self.nested(eng, st, ch)
        ok("C03", "events nested", lvl == ((), 0), "nest", "are not well nested")
        m = eng.measure("#ntok", ("seq", ch))
        ok("C01", "all tokens parsed", m is not None and eng.holds(st, L.add(m, self.N, -1)) and eng.holds(st, L.add(self.N, m, -1)), "tokens", "do not cover all tokens")
        ok("C07", "start rule parsed", self.last(st) in (1, 2), "ran", "do not come from the start rule")
        first = ch[0] if ch else None
        rooted = first is not None and ((first[0] == "it" and first[1][2] == self.ev["Start"]) or (first[0] == "ck" and self.rooted_ck(eng, first[1])))
        # nothing closes the root before the end
        ok("C03", "single root", rooted and self.single_root(eng, st, ch), "root", "do not form a single tree")
        if self.last(st) == 1:
            cur = st.mem[("G", "cur")][1]
            left = L.add(aff(cur[1]), aff(cur[0]), -1)
            none = eng.holds(st, L.neg(left))
            some_left = eng.holds(st, L.shift(left, -1))
            ok("C07", "leftovers decided", none or some_left, "undecided", "do not depend on whether the start rule consumed all tokens")
            if none: ok("C07", "no spurious error", len(ch) == 1, "extra", "contain more than the start rule's match although it consumed all tokens")

    def rooted_ck(self, eng, i):
        a = eng.chunk_attr.get(i)
        if a and a.get("pub"): return True
        s = eng.T.structs[i]
        return s[0] == "popped" and self.rooted_ck(eng, s[1][1])

    def single_root(self, eng, st, ch):
        """depth stays >= 1 between the first and the last event"""
        lvl = ((), 0)
        for n, c in enumerate(ch):
            if c[0] == "it": lvl = L.add(lvl, self.m_bal(eng, c[1]))
            else: lvl = L.add(lvl, eng.ckmeasure("#bal", c[1]))
            if n < len(ch) - 1 and not eng.holds(st, L.shift(lvl, -1)): return False
        return lvl == ((), 0)


def run_parse(F, M, rep):
    ck = RootChecker(F, rep, "parse")
    ck.mode = False
    eng = new_eng(F, M, ck)
    st = St()
    ck.ghost_init(eng, st)
    ck.P = (const(0), const(0))
    ck.mon_init(eng, st)
    fn = F.fn("fall_parse::syn_engine::expr::parse")
    args = [eng.fresh(n or "a") for ty, n in fn.locals[1:fn.argc + 1]]
    for (ty, n), a in zip(fn.locals[1:fn.argc + 1], args):
        if ty["k"] == "ref" and "lex_engine::Token" in ty["s"]: ck.tokref = eng.deref(a)
    if not hasattr(ck, "tokref"): raise CheckError("anchor missing: tokens parameter of %s" % fn.path)
    outs = eng.run(fn, args, st)
    return ck, eng, outs


def analyse(F, M, rep, ctx):
    n = 0
    for mode in (False, True):
        ck, eng, outs = run_parse_expr(F, M, rep, mode)
        seen = {}
        for st, ret in outs:
            w = ck.check_outcome(eng, st, ret)
            seen[w] = seen.get(w, 0) + 1
        for op in ck.ex:
            rep.ok("C07", "operator %s is implemented" % op, op in seen, "%s:gone" % op, "grammar operator %s has no outcome: it is not implemented or always diverges" % op)
        if not mode: rep.ok("C07 C26", "Inject can succeed with a non-empty prefix", getattr(ck, "injected", 0) > 0, "Inject:dead", "grammar operator Inject can never succeed with a non-empty prefix (it always panics or fails)")
        ck.panic_obligations("operators")
        ctx.account(eng)
        n += len(outs)
        ck, eng, outs = run_pratt_go(F, M, rep, mode)
        for st, ret in outs: ck.check_pratt_outcome(eng, st, ret)
        rep.ok("C06", "operator expressions are implemented", len(outs) > 3, "pratt:gone", "operator expressions have too few outcomes (%d)" % len(outs))
        ck.panic_obligations("pratt")
        ctx.account(eng)
        n += len(outs)
    ck, eng, outs = run_parse(F, M, rep)
    for st, ret in outs: ck.check(eng, st, ret)
    rep.ok("C01", "parse has outcomes", len(outs) > 0, "root:gone", "parse has no outcome")
    ck.panic_obligations("parse")
    ctx.account(eng)
    ctx.count("parser outcomes", n + len(outs))
