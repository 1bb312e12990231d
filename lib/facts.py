"""Build the MIR facts of /repo's current working tree and load them.

The facts come from the driver in /verif/driver (a rustc_private program injected with
RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check --workspace`).  They are cached under
/verif/.cache keyed by a hash of every source file that cargo could read, so a change of the
tree always rebuilds them.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FALL_REPO", "/repo")
CACHE = os.environ.get("FALL_CACHE", os.path.join(VERIF, ".cache"))
NIGHTLY = "nightly"

EXPECTED_CRATES = ["fall_editor", "fall_gen", "fall_parse", "fall_test", "fall_text", "fall_tree", "indxr",
                   "lang_bnf", "lang_fall", "lang_fall_syntax", "lang_json", "lang_rust", "lang_rust_syntax"]


class CheckError(Exception):
    """The check could not be carried out (missing anchor, build failure...)."""


def _env():
    e = dict(os.environ)
    for k in ("RUSTC", "RUSTDOC", "RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = NIGHTLY
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def sysroot():
    return subprocess.run(["rustc", "--print", "sysroot"], env=_env(), capture_output=True, text=True, check=True).stdout.strip()


def build_driver():
    os.makedirs(CACHE, exist_ok=True)
    src = os.path.join(VERIF, "driver", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(CACHE, "driver-" + h)
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run(["rustc", "-O", "--edition", "2021", src, "-o", tmp, "-Awarnings"], env=_env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("driver does not build:\n" + r.stderr[-3000:])
        os.replace(tmp, out)
    return out


def tree_files():
    res = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "node_modules"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".fall", ".lock")) or f == "Cargo.lock":
                res.append(os.path.join(root, f))
    return res


def tree_hash():
    h = hashlib.sha256()
    h.update(open(os.path.join(VERIF, "driver", "main.rs"), "rb").read())
    for p in tree_files():
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        h.update(open(p, "rb").read() + b"\0")
    return h.hexdigest()[:20]


def build_facts():
    driver = build_driver()
    key = tree_hash()
    out = os.path.join(CACHE, "facts-" + key)
    if os.path.exists(os.path.join(out, "OK")):
        return out
    for old in glob.glob(os.path.join(CACHE, "facts-*")):
        shutil.rmtree(old, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="factstmp-", dir=CACHE)
    target = os.path.join(CACHE, "target")
    e = _env()
    e["CARGO_TARGET_DIR"] = target
    e["FALL_FACTS_DIR"] = tmp
    e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
    e["RUSTC_WORKSPACE_WRAPPER"] = driver
    e["CARGO_INCREMENTAL"] = "0"
    for attempt in (0, 1):
        # cargo's freshness cache would skip the wrapper: forget the workspace crates (both target layouts)
        if attempt:
            shutil.rmtree(target, ignore_errors=True)
        for d in glob.glob(os.path.join(target, "debug", ".fingerprint", "*")) + glob.glob(os.path.join(target, "debug", "build", "*")):
            n = os.path.basename(d)
            if n.replace("-", "_") in EXPECTED_CRATES or n.rsplit("-", 1)[0].replace("-", "_") in EXPECTED_CRATES:
                shutil.rmtree(d, ignore_errors=True)
        r = subprocess.run(["cargo", "check", "--workspace", "--offline", "--locked"], cwd=REPO, env=e, capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("cargo check failed:\n" + r.stderr[-4000:])
        missing = [c for c in EXPECTED_CRATES if not os.path.exists(os.path.join(tmp, c + ".json"))]
        if not missing:
            break
    if missing:
        raise CheckError("no facts for crates %s" % ", ".join(missing))
    open(os.path.join(tmp, "OK"), "w").write(key)
    os.replace(tmp, out)
    return out


def build_models():
    driver = build_driver()
    src = os.path.join(VERIF, "models", "models.rs")
    h = hashlib.sha256(open(src, "rb").read() + open(os.path.join(VERIF, "driver", "main.rs"), "rb").read()).hexdigest()[:16]
    out = os.path.join(CACHE, "models-" + h)
    if not os.path.exists(os.path.join(out, "models.json")):
        tmp = tempfile.mkdtemp(prefix="modtmp-", dir=CACHE)
        e = _env()
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
        e["FALL_FACTS_DIR"] = tmp
        r = subprocess.run([driver, src, "--crate-name", "models", "--crate-type", "lib", "--edition", "2021", "--emit=metadata", "-Awarnings",
                            "-o", os.path.join(tmp, "libmodels.rmeta")], env=e, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(os.path.join(tmp, "models.json")):
            raise CheckError("models do not build:\n" + r.stderr[-3000:])
        shutil.rmtree(out, ignore_errors=True)
        os.replace(tmp, out)
    return out


_generic = re.compile(r"::<(?:[^<>]|<(?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*>)*>")


def canon(p):
    """Strip generic arguments from a def path: `a::B::<'f, T>::c` -> `a::B::c`."""
    if p is None:
        return None
    if "::<" not in p:
        return p
    prev = None
    while prev != p:
        prev = p
        p = _generic.sub("", p)
    return p


class Fn:
    __slots__ = ("path", "name", "kind", "parent", "vis", "self_ty", "impl_trait", "of_trait", "sig", "unsafe", "span",
                 "blocks", "locals", "argc", "upvars", "promoted", "crate", "_loops")

    def __init__(self, d, crate):
        self.path = canon(d["path"])
        self.name = d["name"]
        self.kind = d["kind"]
        self.parent = canon(d["parent"])
        self.vis = d["vis"]
        self.self_ty = d["self_ty"]
        self.impl_trait = canon(d["impl_trait"])
        self.of_trait = canon(d["of_trait"])
        self.sig = d["sig"]
        self.unsafe = d["unsafe"]
        self.span = d["span"]
        self.crate = crate
        b = d["body"]
        self.blocks, self.locals, self.argc, self.upvars = b["blocks"], b["locals"], b["argc"], b["upvars"]
        self.promoted = []
        for i, pb in enumerate(d["promoted"]):
            f = Fn.__new__(Fn)
            f.path = "%s::{promoted#%d}" % (self.path, i)
            f.name = "{promoted}"; f.kind = "promoted"; f.parent = self.path; f.vis = "private"; f.self_ty = None
            f.impl_trait = f.of_trait = f.sig = None; f.unsafe = False; f.span = self.span; f.crate = crate
            f.blocks, f.locals, f.argc, f.upvars, f.promoted = pb["blocks"], pb["locals"], 0, [], []
            self.promoted.append(f)

    def __repr__(self):
        return "Fn(%s)" % self.path


class Facts:
    def __init__(self, d=None):
        d = d or build_facts()
        self.fns = {}
        self.dups = {}
        self.adts = {}
        self.impls = []
        self.crates = []
        self.unsafes, self.statics = [], []
        for p in sorted(glob.glob(os.path.join(d, "*.json"))):
            j = json.load(open(p))
            c = os.path.basename(p)[:-5]
            self.crates.append(c)
            for f in j["fns"]:
                fn = Fn(f, c)
                if fn.path in self.fns:
                    self.dups.setdefault(fn.path, [self.fns[fn.path]]).append(fn)
                    continue
                self.fns[fn.path] = fn
            for a in j["adts"]:
                a["path"] = canon(a["path"])
                a["crate"] = c
                self.adts[a["path"]] = a
            for k, to in (("unsafe", self.unsafes), ("statics", self.statics)):
                for x in j.get(k, ()):
                    x["crate"] = c
                    to.append(x)
            for i in j["impls"]:
                i["trait"] = canon(i["trait"]); i["items"] = [canon(x) for x in i["items"]]; i["crate"] = c
                self.impls.append(i)

    def fn(self, path):
        f = self.fns.get(path)
        if f is None:
            raise CheckError("anchor missing: function %s is not in the tree" % path)
        return f

    def adt(self, path):
        a = self.adts.get(path)
        if a is None:
            raise CheckError("anchor missing: type %s is not in the tree" % path)
        return a

    def in_crate(self, *crates):
        return [f for f in self.fns.values() if f.crate in crates]


def pp_place(p):
    s = "_%d" % p["l"]
    for e in p["p"]:
        if e[0] == "deref": s = "(*%s)" % s
        elif e[0] == "field": s += "." + e[2]
        elif e[0] == "index": s += "[_%d]" % e[1]
        elif e[0] == "downcast": s += " as " + e[2]
        else: s += str(e)
    return s


def pp_op(o):
    if o[0] in ("copy", "move"): return ("" if o[0] == "copy" else "mv ") + pp_place(o[1])
    c = o[1]
    if "fn" in c: return "fn " + canon(c["resolved"] or c["fn"])
    if c.get("c"): return "const " + json.dumps(list(c["c"].values())[0])
    return "const " + c["pp"]


def pp_rv(r):
    k = r[0]
    if k == "use": return pp_op(r[1])
    if k == "ref": return "&%s%s" % ("mut " if r[1] == "mut" else "", pp_place(r[2]))
    if k == "bin": return "%s(%s, %s)" % (r[1], pp_op(r[2]), pp_op(r[3]))
    if k == "un": return "%s(%s)" % (r[1], pp_op(r[2]))
    if k == "cast": return "%s as %s" % (pp_op(r[2]), r[3]["s"])
    if k == "discr": return "discr(%s)" % pp_place(r[1])
    if k == "adt": return "%s::%s(%s)" % (canon(r[1]), r[3], ", ".join(map(pp_op, r[4])))
    if k in ("tuple", "array", "agg"): return "%s(%s)" % (k, ", ".join(map(pp_op, r[1])))
    if k == "closure": return "closure %s(%s)" % (canon(r[1]), ", ".join(map(pp_op, r[2])))
    return str(r)


def pp_fn(f):
    out = ["fn %s argc=%d" % (f.path, f.argc)]
    for i, (t, n) in enumerate(f.locals):
        out.append("  let _%d%s: %s" % (i, " (%s)" % n if n else "", t["s"]))
    for i, b in enumerate(f.blocks):
        if b["c"]: continue
        out.append(" bb%d:" % i)
        for s in b["s"]:
            if s[0] == "=": out.append("    %s = %s" % (pp_place(s[1]), pp_rv(s[2])))
            elif s[0] == "setdiscr": out.append("    discr %s = %d" % (pp_place(s[1]), s[2]))
        t = b["t"]
        if t["k"] == "call": out.append("    %s = %s(%s) -> bb%s" % (pp_place(t["d"]), pp_op(t["f"]), ", ".join(map(pp_op, t["a"])), t["t"]))
        elif t["k"] == "switch": out.append("    switch %s %s else bb%d" % (pp_op(t["d"]), t["v"], t["o"]))
        elif t["k"] == "assert": out.append("    assert %s==%s (%s) -> bb%d" % (pp_op(t["c"]), t["e"], t["m"], t["t"]))
        elif t["k"] == "drop": out.append("    drop %s -> bb%d" % (pp_place(t["p"]), t["t"]))
        else: out.append("    " + json.dumps(t))
    return "\n".join(out)


if __name__ == "__main__":
    F = Facts()
    for a in sys.argv[1:]:
        hits = [f for f in F.fns.values() if a in f.path]
        for f in hits:
            print(pp_fn(f))
    if len(sys.argv) == 1:
        print(len(F.fns), "functions", len(F.adts), "adts", len(F.dups), "dup paths", list(F.dups)[:10])
