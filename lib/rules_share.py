"""C28: what is shared between threads is Send and Sync, and immutable except for what is behind locks.
Facts come from the type checker: auto traits and freeze-ness of every type, unsafe operations by block."""
from facts import canon

ROOTS = ["fall_tree::node::File", "fall_tree::node::Node", "fall_tree::lang::Language", "fall_tree::metrics::Metrics", "fall_text::text_buf::TextBuf",
         "fall_text::text::Text", "fall_text::text_edit::TextEdit", "fall_tree::edit::FileEdit", "fall_parse::ParserDefinition",
         "lang_fall::analysis::Analysis", "lang_fall::analysis::FileWithAnalysis", "lang_rust::editor::RustEditorFile"]
LOCKS = ("std::sync::poison::mutex::Mutex", "std::sync::poison::rwlock::RwLock")
# where the property allows change behind a lock
LOCKED = ("fall_tree::metrics::Metrics", "lang_fall::analysis::db::DB")
# unsafe operations that work on values or exclusive borrows only
HARMLESS = ("alloc::vec::Vec::set_len", "core::str::from_utf8_unchecked", "core::slice::get_unchecked", "core::str::get_unchecked", "alloc::string::String::from_utf8_unchecked")
TRUSTED_MACROS = ("self_cell::", "lazy_static::", "std::", "core::")


def analyse(F, M, rep, ctx):
    P = "C28"
    impls = {}
    for i in F.impls:
        if i["trait"]: impls.setdefault(i["trait"], []).append(canon(i["self"]).split("<")[0].lstrip("&"))
    roots = []
    for r in ROOTS:
        if r not in F.adts:
            # a type may move: look for the same name in the same crate
            alt = [a for a in F.adts if a.split("::")[0] == r.split("::")[0] and a.split("::")[-1] == r.split("::")[-1]]
            rep.ok(P, "%s exists" % r, len(alt) == 1, "root:" + r, "anchor missing: type %s" % r)
            r = alt[0] if alt else None
        if r: roots.append(r)
    # typed tree accessors
    roots += [canon(i["self"]).split("<")[0] for i in F.impls if i["trait"] == "fall_tree::ast::AstNode" and canon(i["self"]).split("<")[0] in F.adts]
    seen, todo, via = set(), list(roots), {}
    while todo:
        a = todo.pop()
        if a in seen: continue
        seen.add(a)
        for v in F.adts[a]["variants"]:
            for f in v["fields"]:
                for k, p, frz, loc in f["parts"]:
                    p = canon(p)
                    new = []
                    if k == "adt" and p in F.adts: new = [p]
                    elif k == "dyn": new = [x for x in impls.get(p, ()) if x in F.adts]
                    for x in new: via.setdefault(x, (a, f["name"])); todo.append(x)
    rep.ok(P, "types found", len(seen) >= 60, "types", "anchor missing: only %d shared types found" % len(seen))
    ctx.count("shared_types", len(seen))
    for a in sorted(seen):
        d = F.adts[a]
        if any(f_["parts"] and f_["parts"][0][0] == "param" for v in d["variants"] for f_ in v["fields"]): continue     # judged where it is used
        rep.ok(P, "%s is Send" % a, d["send"], "send:" + a, "%s (%s) cannot be sent to another thread" % (a, d["span"]))
        rep.ok(P, "%s is Sync" % a, d["sync"], "sync:" + a, "%s (%s) cannot be shared between threads" % (a, d["span"]))
        for v in d["variants"]:
            for f in v["fields"]:
                inlock = False
                for k, p, frz, loc in f["parts"]:
                    p = canon(p)
                    if k == "ptr": rep.ok(P, "no raw pointers", False, "ptr:%s.%s" % (a, f["name"]), "%s.%s holds a raw pointer" % (a, f["name"]))
                    if k == "adt" and p in LOCKS: inlock = True
                    hidden = k == "adt" and p in LOCKS or (not frz and k in ("adt", "other") and not loc and p not in F.adts)
                    if hidden and k == "adt":
                        wrapper = p not in LOCKS and any(canon(q) in LOCKS for kk, q, fz, l in f["parts"])
                        good = a in LOCKED and (p in LOCKS or wrapper)
                        rep.ok(P, "%s.%s changes behind a lock only" % (a, f["name"]), good, "cell:%s.%s" % (a, f["name"]), "%s.%s (%s) can be changed while the file is shared" % (a, f["name"], p))
                ctx.count("fields")
                rep.ok(P, "%s.%s" % (a, f["name"]), True, "", "")
    for i in F.impls:
        if i["trait"] in ("core::marker::Send", "core::marker::Sync"):
            rep.ok(P, "no hand-written Send or Sync", not i["unsafe"], "impl:%s:%s" % (i["trait"], i["self"]), "%s is declared %s by hand (%s)" % (i["self"], i["trait"].split("::")[-1], i["span"]))
    for s in F.statics:
        rep.ok(P, "static %s" % s["path"], not s["mut"], "static:" + s["path"], "%s (%s) is a mutable static" % (s["path"], s["span"]))
        if not s["expanded"]:
            for k, p, frz, loc in s["parts"]:
                rep.ok(P, "static %s does not change" % s["path"], frz or canon(p) in LOCKS or k != "adt", "static:" + s["path"], "%s (%s) is shared state that changes" % (s["path"], s["span"]))
    n = 0
    for u in F.unsafes:
        n += 1
        if u["external"] and u["macro"].startswith(TRUSTED_MACROS): continue
        for o in u["ops"]:
            name = canon(o[5:]) if o.startswith("call ") else o
            rep.ok(P, "unsafe operation in %s" % u["in"], name in HARMLESS, "unsafe:%s:%s" % (canon(u["in"]), name), "%s (%s) performs an unsafe operation (%s) that could write to what is shared" % (u["in"], u["span"], o))
    ctx.count("unsafe_blocks", n)
