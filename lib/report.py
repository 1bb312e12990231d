"""Obligations and violations of one run."""


class Report:
    """violations are keyed (property, key); keys name constructs, never line numbers"""
    def __init__(self):
        self.v = {}
        self.obl = {}
        self.failed = {}
        self.samples = {}

    def bad(self, prop, key, msg):
        for q in prop.split(): self.v.setdefault((q, key), msg)

    def ok(self, prop, what, cond, key, msg):
        """prop may name several properties"""
        if " " in prop:
            for q in prop.split(): self.ok(q, what, cond, key, msg)
            return cond
        self.obl[prop] = self.obl.get(prop, 0) + 1
        s = self.samples.setdefault(prop, [])
        if len(s) < 40 and what not in s: s.append(what)
        if not cond:
            self.failed[prop] = self.failed.get(prop, 0) + 1
            self.bad(prop, key, msg() if callable(msg) else msg)
        return cond
