"""C09, C10 and the raw-token half of C01: lexing and relexing.

Abstract interpretation of `lex`, `relex`, `RegexLexer::new` and `RegexLexer::next_token` with a
ghost that counts the length of the tokens pushed so far, the length of the old tokens taken from
the old list so far and the length of the edit pieces seen so far."""
from absint import *
from facts import CheckError
import linear as L

TOKEN = "fall_parse::lex_engine::Token"
LEX = "fall_parse::lex_engine::lex"
RELEX = "fall_parse::lex_engine::relex"
TEXT = "fall_text::text::Text"
RANGE = "fall_text::text_range::TextRange"
OP = "fall_text::text_edit::TextEditOp"
ERRTY = const(0)


def fidx(F, adt, name, v=0):
    fs = F.adt(adt)["variants"][v]["fields"]
    for i, f in enumerate(fs):
        if f["name"] == name: return i
    raise CheckError("anchor missing: field %s.%s" % (adt, name))


class LexChecker(Checker):
    def __init__(self, F, rep, what):
        self.F, self.rep, self.what = F, rep, what
        self.asserts = {}
        self.panics = set()
        self.reuses = self.steps = 0

    def fl(self, v, name): return self.eng.fld(v, fidx(self.F, TOKEN, name), name, "", TOKEN)

    def trange(self, v):
        e = self.eng
        r = e.fld(v, fidx(self.F, TEXT, "range"), "range", "", TEXT)
        return (e.fld(r, fidx(self.F, RANGE, "start"), "start", "", RANGE), e.fld(r, fidx(self.F, RANGE, "end"), "end", "", RANGE))

    def g(self, st, k): return st.mem[("G", k)]

    def init(self, eng, st, new_text, old=None, edit=None):
        self.eng = eng
        self.text = new_text
        self.old, self.edit = old, edit
        self.told = eng.fresh("oldtext.len") if old is not None else None
        z = const(0)
        for k in ("pushed", "oldk", "oldlen", "opk", "opbase", "opnext", "errk"): st.mem[("G", k)] = z
        st.mem[("G", "pend")] = st.mem[("G", "over")] = ("adt", "mon", 0, ())
        st.mem[("G", "tok")] = ("tup", (z, z))
        eng.measures["#toklen"] = lambda e, it: aff(self.fl(it, "len")) if it[0] in ("s", "adt") else None
        s, e = self.trange(new_text)
        eng.addfact(st, L.add(aff(e), aff(s), -1))

    def eqn(self, st, a, b):
        d = L.add(aff(a), aff(b), -1)
        return self.eng.holds(st, d) and self.eng.holds(st, L.neg(d))

    def ok(self, prop, what, c, key, msg):
        if self.eng.quiet: return c
        return self.rep.ok(prop, "%s: %s" % (self.what, what), c, "%s:%s" % (self.what, key), "%s %s" % (self.what, msg))

    def intercept(self, eng, st, name, args, call):
        if call.get("method") == "next_token" and len(args) == 2:
            txt = args[1]
            s, e = self.trange(txt)
            s0, e0 = self.trange(self.text)
            want = num(L.add(aff(s0), aff(self.g(st, "pushed"))))
            if not eng.quiet: self.steps += 1
            owned = lambda t: eng.fld(t, fidx(self.F, TEXT, "owned"), "owned", "", TEXT)
            self.ok("C09 C10 C01", "a token is lexed where the previous one ended", self.eqn(st, s, want), "at", "lexes a token at another place than where the previous token ended")
            self.ok("C09 C10", "a token is lexed from the whole rest of the text", self.eqn(st, e, e0) and owned(txt) == owned(self.text), "rest", "lexes a token from something else than the rest of the text")
            self.ok("C01", "no token is lexed twice", self.g(st, "pend")[2] == 0, "drop", "drops a token it has lexed")
            t = eng.fresh("token")
            eng.addfact(st, L.add(L.add(aff(e), aff(s), -1), aff(self.fl(t, "len")), -1))   # a token is a prefix of the text it is lexed from
            st.mem[("G", "pend")] = ("adt", "mon", 1, ())
            st.mem[("G", "tok")] = ("tup", (self.fl(t, "ty"), self.fl(t, "len")))
            return [(st, t)]
        return None

    def on_result(self, eng, call, args, outs):
        if self.old is None: return
        if call["method"] in ("iter", "into_iter", "iter_mut") and args:
            for st, v in outs:
                if v[0] == "adt" and v[1].endswith("SliceIter") and v[3][1] == const(0):
                    try: x = eng.load(st, eng.deref(v[3][0]))
                    except CheckError: continue
                    if x == self.old: self.restart(st)
            return
        extra, dead = [], []
        for st, v in outs:
            x = v
            if x[0] == "adt" and x[1].endswith("Option"):
                if x[2] == 0:
                    # the old list is exhausted: everything in it has been taken
                    if call["method"] == "next" and self.eqn(st, self.g(st, "oldk"), num(eng.seqlen(self.old))):
                        d = L.add(aff(self.g(st, "oldlen")), aff(self.told), -1)
                        if not (eng.learn(st, d) and eng.learn(st, L.neg(d))): dead.append(st)
                        else: self.phase(eng, st)
                    continue
                x = x[3][0]
            for _ in range(3):
                if x[0] in ("ref", "rv"):
                    try: x = eng.load(st, x)
                    except CheckError: break
            k = self.elem_of(eng, st, x, self.old)
            if k is not None and self.eqn(st, k, self.g(st, "oldk")):
                self.took(eng, st, k, x)
            k = self.elem_of(eng, st, x, self.ops)
            if k is not None and self.eqn(st, k, self.g(st, "opk")):
                st.mem[("G", "opk")] = num(L.shift(aff(k), 1))
                st.mem[("G", "cur")] = x
                known = st.vars.get(x[1])
                cp = self.variant("Copy")
                st2 = st.copy() if not isinstance(known, int) else None
                for s_, var in ((st, known if isinstance(known, int) else cp), (st2, 1 - cp)):
                    if s_ is None: continue
                    s_.vars[x[1]] = var
                    s_.mem[("G", "over")] = ("adt", "mon", 0, ())
                    s_.mem[("G", "opbase")] = self.g(s_, "opnext")
                    if var == cp:
                        rs, re = self.piece(eng, x)
                        ln = L.add(aff(re), aff(rs), -1)
                        eng.addfact(s_, ln)
                        eng.addfact(s_, L.add(aff(self.told), aff(re), -1))     # the edit copies from the old text
                    else:
                        ln = eng.seqlen(eng.fld(eng.fld(x, 0, "0", "Insert", OP), 0, "data", "", "fall_text::text_buf::TextBuf"))
                    s_.mem[("G", "opnext")] = num(L.add(aff(self.g(s_, "opnext")), ln))
                    a, b = self.trange(self.text)
                    eng.addfact(s_, L.add(L.add(aff(b), aff(a), -1), aff(self.g(s_, "opnext")), -1))   # the new text is the edit's result
                if st2 is not None: extra.append((st2, v))
        outs[:] = [o for o in outs if not any(o[0] is d for d in dead)] + extra

    def piece(self, eng, op):
        r = eng.fld(op, 0, "0", "Copy", OP)
        return (eng.fld(r, fidx(self.F, RANGE, "start"), "start", "", RANGE), eng.fld(r, fidx(self.F, RANGE, "end"), "end", "", RANGE))

    def restart(self, st):
        st.mem[("G", "oldk")] = st.mem[("G", "oldlen")] = const(0)

    def took(self, eng, st, k, x):
        st.mem[("G", "oldk")] = num(L.shift(aff(k), 1))
        st.mem[("G", "oldlen")] = num(L.add(aff(self.g(st, "oldlen")), aff(self.fl(x, "len"))))

    def phase(self, eng, st):
        """distinguish states in which the old tokens have run past the current copied piece"""
        d = L.add(aff(self.g(st, "oldlen")), aff(self.told), -1)
        if d[0] and self.eqn(st, self.g(st, "oldk"), num(eng.seqlen(self.old))) and not eng.holds(st, d):
            eng.addfact(st, d); eng.addfact(st, L.neg(d))
        cur = st.mem.get(("G", "cur"))
        over = st.mem[("G", "over")][2]
        if over: return
        if cur is not None and st.vars.get(cur[1]) == self.variant("Copy"):
            over = 1 if eng.holds(st, L.add(aff(self.g(st, "oldlen")), aff(self.piece(eng, cur)[1]), -1)) else 0
        st.mem[("G", "over")] = ("adt", "mon", over, ())

    def invariants(self, eng, st):
        cur = st.mem.get(("G", "cur"))
        a, b = self.trange(self.text)
        base = (L.add(L.add(aff(b), aff(a), -1), aff(self.g(st, "pushed")), -1),)
        if self.old is None or cur is None: return base
        base += (L.add(eng.seqlen(self.old), aff(self.g(st, "oldk")), -1), L.add(aff(self.g(st, "pushed")), aff(self.g(st, "opbase")), -1), L.add(aff(self.g(st, "pushed")), aff(self.g(st, "opnext")), -1),
                 L.add(aff(self.g(st, "opnext")), aff(self.g(st, "opbase")), -1), L.add(L.add(aff(b), aff(a), -1), aff(self.g(st, "opnext")), -1))
        if st.vars.get(cur[1]) == self.variant("Copy"):
            rs, re = self.piece(eng, cur)
            base += (L.add(aff(self.g(st, "oldlen")), aff(rs), -1),)
        if st.mem[("G", "over")][2] == 0: return base
        return base + (L.add(aff(self.g(st, "oldlen")), aff(self.piece(eng, cur)[1]), -1),)

    def on_assume(self, eng, st, c, val):
        if self.old is None: return
        self.phase(eng, st)
        if c[0] != "c" or c[1] != "eq": return
        k = self.g(st, "errk")
        ty = self.fl(eng.index(st, self.old, k), "ty")
        if L.add(aff(ty), c[2], -1) == ((), 0) or L.add(aff(ty), c[2]) == ((), 0):
            if not eng.holds(st, L.neg(aff(ty))): st.mem[("G", "errk")] = num(L.shift(aff(k), 1))

    def elem_of(self, eng, st, x, base):
        if x[0] != "s": return None
        s = eng.T.structs[x[1]]
        if s[0] != "elem": return None
        return s[2] if s[1] == base else None

    def on_push(self, eng, st, ref, item, fn):
        ty = self.fl(item, "ty") if item[0] in ("s", "adt") else None
        if ty is None: return
        ln = self.fl(item, "len")
        pend = self.g(st, "pend")[2]
        tok = self.g(st, "tok")[1]
        if pend == 1 and ty == tok[0] and ln == tok[1]:
            st.mem[("G", "pend")] = ("adt", "mon", 0, ())
        else:
            k = self.elem_of(eng, st, item, self.old) if self.old is not None else None
            if not self.ok("C09 C01", "every token is freshly lexed or reused", k is not None, "origin", "produces a token that was neither lexed nor reused"): pass
            else: self.check_reuse(eng, st, item, k)
        st.mem[("G", "pushed")] = num(L.add(aff(self.g(st, "pushed")), aff(ln)))

    def check_reuse(self, eng, st, item, k):
        if eng.quiet: return
        self.reuses += 1
        cur = self.g(st, "cur") if ("G", "cur") in st.mem else None
        copy = self.variant("Copy")
        if not self.ok("C09", "a token is reused inside a copied piece", cur is not None and cur[0] == "s" and st.vars.get(cur[1]) == copy, "piece", "reuses a token outside a copied piece"): return
        rs, re = self.piece(eng, cur)
        self.ok("C09", "reuse only if the old text has no lexing error", self.eqn(st, self.g(st, "errk"), num(eng.seqlen(self.old))), "errors", "reuses tokens although the old text may contain a lexing error")
        ln = self.fl(item, "len")
        end = self.g(st, "oldlen")
        start = num(L.add(aff(end), aff(ln), -1))
        ge = lambda a, b: eng.holds(st, L.add(aff(a), aff(b), -1))
        self.ok("C09", "the reused token is the last one taken", self.eqn(st, num(L.shift(aff(k), 1)), self.g(st, "oldk")), "which", "reuses a token whose position in the old text it does not track")
        self.ok("C09", "the reused token starts inside the piece", ge(start, rs), "start", "reuses a token that starts before the copied piece")
        self.ok("C09", "the reused token ends before the piece does", ge(num(L.shift(aff(re), -1)), end), "end", "reuses a token that reaches the end of the copied piece (its match may depend on text the edit changed)")
        # position in the new text
        off = num(L.add(aff(self.g(st, "opbase")), L.add(aff(start), aff(rs), -1)))
        self.ok("C09", "the reused token stands where lexing stands", self.eqn(st, off, self.g(st, "pushed")), "sync", "reuses a token at another place than the one its text has after the edit")
        self.ok("C09", "no pending token", self.g(st, "pend")[2] == 0, "pending", "drops a token it has lexed")

    def variant(self, n):
        for i, v in enumerate(self.F.adt(OP)["variants"]):
            if v["name"] == n: return i
        raise CheckError("anchor missing: TextEditOp::%s" % n)

    def on_assert(self, eng, st, kind, cond, fn, span):
        self.judge(eng, st, kind, cond, fn)
        if self.old is None or kind != "bounds" or fn.crate == "models" or cond[0] != "c" or cond[1] != "ge": return
        # indexing the old list: is it the next element?
        n = eng.seqlen(self.old)
        i = L.shift(L.add(n, cond[2], -1), -1)
        if {x for x, _ in n[0]} <= {x for x, _ in cond[2][0]} and self.eqn(st, num(i), self.g(st, "oldk")):
            self.took(eng, st, num(i), eng.index(st, self.old, num(i)))

    def judge(self, eng, st, kind, cond, fn):
        if eng.quiet: return
        d = eng.decide(st, cond)
        if d is None and self.old is not None:
            # would it fail only after the whole old text?  Then the old text has been passed
            s2 = st.copy()
            if not eng.assume(s2, cond, False): d = True
            else:
                q = L.add(aff(self.g(s2, "oldlen")), aff(self.told), -1)
                if self.eqn(s2, self.g(st, "oldk"), num(eng.seqlen(self.old))) and not (eng.learn(s2, q) and eng.learn(s2, L.neg(q))): d = True
        k = (fn.path, kind, eng.show(cond, 5))
        self.asserts[k] = self.asserts.get(k, True) and d is True

    def on_panic(self, eng, st, name, fn, span):
        if not eng.quiet: self.panics.add((fn.path, name))

    def check_end(self, eng, st, toks):
        s0, e0 = self.trange(self.text)
        n = num(L.add(aff(e0), aff(s0), -1))
        self.ok("C01 C09 C10", "the tokens cover the text", self.eqn(st, self.g(st, "pushed"), n), "cover", "stops before the end of the text (or goes beyond it)")
        m = eng.measure("#toklen", toks) if toks[0] == "seq" else None
        self.ok("C01", "all tokens are returned", m is not None and self.eqn(st, num(m), self.g(st, "pushed")), "returned", "does not return all the tokens it produced")
        self.ok("C01", "no token is dropped", self.g(st, "pend")[2] == 0, "pending", "drops the last token it has lexed")

    def panics_ok(self):
        for fn, name in sorted(self.panics):
            self.rep.ok("C26", "%s: no panic" % self.what, False, "%s:panic:%s" % (self.what, fn), "%s can panic in %s (%s)" % (self.what, fn, name.split("::")[-1]))
        for (fn, kind, text), good in self.asserts.items():
            self.rep.ok("C26", "%s: %s in %s" % (self.what, kind, fn.split("::")[-1]), good, "%s:assert:%s:%s" % (self.what, fn, kind), "%s: %s can fail in %s: %s" % (self.what, kind, fn, text))


class RegexChecker(Checker):
    """RegexLexer: kind k of the m_lexer is rule k-1, kind 0 the error"""
    def __init__(self, F, rep):
        self.F, self.rep = F, rep
        self.count = 0

    def eqn(self, st, a, b):
        d = L.add(aff(a), aff(b), -1)
        return self.eng.holds(st, d) and self.eng.holds(st, L.neg(d))

    def ok(self, what, c, key, msg):
        if self.eng.quiet: return c
        return self.rep.ok("C10", what, c, "kinds:" + key, "the lexer's rules: " + msg)

    def rule(self, st):
        return self.eng.index(st, self.rules, st.mem[("G", "n")])

    def rf(self, v, name): return self.eng.fld(v, fidx(self.F, "fall_parse::LexRule", name), name, "", "fall_parse::LexRule")

    def kind(self, v): return self.eng.fld(v, 0, "0", "", "m_lexer::TokenKind")

    def sees(self, st, v, want, depth=0):
        e = self.eng
        if v == want: return True
        if depth > 8: return False
        if v[0] in ("ref", "rv"):
            try: return self.sees(st, e.load(st, v), want, depth + 1)
            except CheckError: return False
        if v[0] == "adt": return any(self.sees(st, x, want, depth + 1) for x in v[3])
        if v[0] in ("tup", "box"): return any(self.sees(st, x, want, depth + 1) for x in v[1] if isinstance(x, tuple))
        if v[0] == "s":
            s = e.T.structs[v[1]]
            if s[0] == "app": return any(isinstance(x, tuple) and self.sees(st, x, want, depth + 1) for x in s[2:])
            if s[0] == "*" : return self.sees(st, ("s", s[1][1]) if s[1][0] == "T" else s[1], want, depth + 1)
        return False

    def intercept(self, eng, st, name, args, call):
        if not name.startswith("m_lexer"): return None
        m = call["method"]
        if m == "rule" and len(args) == 4:
            self.count += 1
            n = st.mem[("G", "n")]
            r = self.rule(st)
            self.ok("rule k has kind k+1", self.eqn(st, self.kind(args[1]), num(L.shift(aff(n), 1))), "number", "a rule is registered under a number that is not its position")
            self.ok("rule k uses its own pattern", self.sees(st, args[2], self.rf(r, "re")), "pattern", "a rule is registered with another rule's pattern")
            f = self.rf(r, "f")
            want = eng.fld(f, 0, "0", "Some")
            var = eng.var_of(st, f)
            got = args[3]
            gv = eng.var_of(st, got)
            good = var is not None and gv == var and (var == 0 or self.sees(st, got, want)) or got == f
            self.ok("rule k uses its own function", good, "function", "a rule is registered without its custom function or with another rule's")
            st.mem[("G", "n")] = num(L.shift(aff(n), 1))
            return [(st, eng.fresh("builder"))]
        if m == "error_token":
            st.mem[("G", "err")] = ("adt", "mon", 1 if self.eqn(st, self.kind(args[1]), const(0)) else 2, ())
            return [(st, eng.fresh("builder"))]
        if m == "build":
            self.ok("all rules are registered", self.eqn(st, st.mem[("G", "n")], num(self.eng.seqlen(self.rules))), "all", "not every rule reaches the lexer")
            self.ok("unmatched text has kind 0", st.mem[("G", "err")][2] == 1, "error", "text that matches no rule does not get the error kind")
        return None


def check_regex_new(F, M, rep, ctx):
    ck = RegexChecker(F, rep)
    eng = Eng(F, M, ck); ck.eng = eng
    st = St()
    fn = F.fn("fall_parse::RegexLexer::new")
    rules = eng.fresh("rules")
    ck.rules = rules
    st.mem[("G", "n")] = const(0)
    st.mem[("G", "err")] = ("adt", "mon", 0, ())
    ti = fidx(F, "fall_parse::RegexLexer", "tys")
    pushes = []

    class H: pass
    def on_push(e, s, ref, item, f):
        # tys: entry 0 is ERROR, entry k+1 the type of rule k (rule k having just been registered or about to be)
        v = e.seqlen(e.load(s, ref))
        n = s.mem[("G", "n")]
        if item == ERRTY and e.holds(s, L.neg(v)): good = True
        else:
            k = num(L.shift(v, -1))
            good = ck.rf(e.index(s, rules, k), "ty") == item
            ck.ok("kinds follow the rules one by one", e.holds(s, L.add(aff(n), aff(k), -1)) and e.holds(s, L.shift(L.add(aff(k), aff(n), -1), 1)), "step", "the table of kinds does not follow the rules")
        ck.ok("entry k+1 of the kind table is the kind of rule k", good, "table", "the table of token kinds is not aligned with the rule numbers")
    ck.on_push = on_push
    outs = eng.run(fn, [rules], st)
    for s, v in outs:
        tys = v[3][ti] if v[0] == "adt" else None
        n = eng.seqlen(tys) if tys is not None else None
        d = L.shift(L.add(n, eng.seqlen(rules), -1), -1) if n is not None else None
        ck.ok("one kind per rule and one for errors", d is not None and eng.holds(s, d) and eng.holds(s, L.neg(d)), "size", "the table of kinds does not have one entry per rule")
    rep.ok("C10", "lexer construction", bool(outs) and ck.count > 0, "kinds:gone", "the lexer is built without rules")
    ctx.account(eng)


def check_next_token(F, M, rep, ctx):
    class NT(Checker):
        def intercept(self, eng, st, name, args, call):
            if name.startswith("m_lexer") and call["method"] == "next_token":
                t = eng.fresh("m_token")
                self.calls.append((st, args, t))
                return [(st, t)]
            return None
    ck = NT(); ck.calls = []
    eng = Eng(F, M, ck)
    st = St()
    cand = [f for f in F.fns.values() if f.path.endswith("::next_token") and "RegexLexer" in f.path]
    if len(cand) != 1: raise CheckError("anchor missing: RegexLexer::next_token")
    slf, text = eng.fresh("self"), eng.fresh("text")
    outs = eng.run(cand[0], [slf, text], st)
    me = eng.load(st, eng.deref(slf))
    tys = eng.fld(me, fidx(F, "fall_parse::RegexLexer", "tys"), "tys", "", "fall_parse::RegexLexer")
    rep.ok("C10", "one match per token", len(ck.calls) == 1 and len(outs) == 1, "token:calls", "a token is not the result of exactly one match")
    for s, v in outs:
        t = ck.calls[0][2]
        ty = eng.fld(v, fidx(F, TOKEN, "ty"), "ty", "", TOKEN)
        ln = eng.fld(v, fidx(F, TOKEN, "len"), "len", "", TOKEN)
        kind = eng.fld(eng.fld(t, 0, "kind", "", "m_lexer::Token"), 0, "0", "", "m_lexer::TokenKind")
        mk = m_fields(eng, t, "kind"), m_fields(eng, t, "len")
        want = [eng.index(s, tys, k) for k in kinds(eng, t)]
        rep.ok("C10", "the token's kind is the matched rule's", ty in want, "token:kind", "a token does not get the kind of the rule that matched")
        rep.ok("C10 C01", "the token's length is the match's", any(ln == x for x in lens(eng, t)), "token:len", "a token does not get the length of the match")
    ctx.account(eng)


def m_fields(eng, t, n): return None
def kinds(eng, t): return [eng.fld(eng.fld(t, i, "kind", "", on), 0, "0", "", on2) for i in (0, 1) for on in ("m_lexer::Token", "") for on2 in ("m_lexer::TokenKind", "")]
def lens(eng, t): return [eng.fld(t, i, "len", "", on) for i in (0, 1) for on in ("m_lexer::Token", "")]


def analyse(F, M, rep, ctx):
    ck = LexChecker(F, rep, "lex")
    eng = Eng(F, M, ck); st = St()
    fn = F.fn(LEX)
    a = [eng.fresh(n or "a") for _, n in fn.locals[1:fn.argc + 1]]
    text = pick(fn, a, lambda s: s.startswith(TEXT))
    ck.init(eng, st, text)
    outs = eng.run(fn, a, st)
    for s, v in outs: ck.check_end(eng, s, v)
    rep.ok("C10", "lex lexes", ck.steps > 0 and bool(outs), "lex:gone", "lex does not lex")
    ck.panics_ok(); ctx.account(eng)
    ck = LexChecker(F, rep, "relex")
    eng = Eng(F, M, ck); st = St()
    fn = F.fn(RELEX)
    a = [eng.fresh(n or "a") for _, n in fn.locals[1:fn.argc + 1]]
    text = pick(fn, a, lambda s: s.startswith(TEXT))
    old = eng.load(st, eng.deref(pick(fn, a, lambda s: "[" in s and TOKEN in s)))
    edit = eng.load(st, eng.deref(pick(fn, a, lambda s: s.endswith("TextEdit"))))
    ck.ops = eng.fld(edit, fidx(F, "fall_text::text_edit::TextEdit", "ops"), "ops", "", "fall_text::text_edit::TextEdit")
    ck.init(eng, st, text, old, edit)
    outs = eng.run(fn, a, st)
    for s, v in outs: ck.check_end(eng, s, v[1][0] if v[0] == "tup" else v)
    rep.ok("C09", "relex reuses tokens", ck.reuses > 0 and bool(outs), "relex:gone", "relexing never reuses a token")
    ck.panics_ok(); ctx.account(eng)
    check_regex_new(F, M, rep, ctx)
    check_next_token(F, M, rep, ctx)


def pick(fn, args, pred):
    for (ty, n), a in zip(fn.locals[1:fn.argc + 1], args):
        if pred(ty["s"]): return a
    raise CheckError("anchor missing: parameter of %s" % fn.path)
