#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] | --setup

Decides one property of properties.jsonl by static analysis of the current tree of /repo.
Exit 0: held (known findings are printed).  Exit 1 + `VIOLATION property=.. replay=..`: broken."""
import json, os, sys, time, traceback, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import registry                      # noqa: E402
from facts import CheckError, Facts, build_facts, build_models   # noqa: E402
from report import Report            # noqa: E402


def known():
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if not l.startswith("known:"): continue
        body = l[6:].strip()
        prop = body.split("property=")[1].split()[0]
        key = body.split("key=")[1].split(" | ")[0].strip()
        what = body.split(" | ", 1)[1] if " | " in body else ""
        out[(prop, key)] = what
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build_facts(); build_models()
        print("setup done")
        return 0
    prop = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    rep = Report()
    spec = registry.PROPS.get(prop)
    if spec is None:
        print("unknown property", prop); return 2
    ctx = registry.Ctx(tier)
    for name in spec["analyses"]:
        try:
            registry.run(name, ctx, rep)
        except CheckError as e:
            if os.environ.get("VERIF_DEBUG"): traceback.print_exc()
            rep.bad(prop, "undecided:%s:%s" % (name, e), "analysis %s cannot decide the current source: %s" % (name, e))
        except RecursionError:
            rep.bad(prop, "undecided:%s:recursion" % name, "analysis %s cannot decide the current source (recursion)" % name)
    if not rep.v and rep.obl.get(prop, 0) < spec.get("floor", 1):
        rep.bad(prop, "floor", "only %d obligations were found where at least %d are expected: the constructs this property is about are gone" % (rep.obl.get(prop, 0), spec.get("floor", 1)))
    kn = known()
    mine = sorted((k[1], m) for k, m in rep.v.items() if k[0] == prop)
    fresh = [(k, m) for k, m in mine if (prop, k) not in kn]
    for k, m in mine:
        if (prop, k) in kn: print("KNOWN-FINDING: property=%s %s" % (prop, kn[(prop, k)] or m))
    rc = 0
    for k, m in fresh:
        h = hashlib.sha256(k.encode()).hexdigest()[:10]
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.txt" % (prop, h))
        with open(path, "w") as f:
            f.write("property: %s\nkey: %s\n%s\n\nrerun: python3 %s %s\n" % (prop, k, m, os.path.join(HERE, "check.py"), prop))
        if rc == 0 or len(fresh) <= 20:
            print("%s: %s [%s]" % (prop, m, k))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    n = rep.obl.get(prop, 0)
    bad = len(mine)
    cov = {
        "explanation": spec["rule"],
        "obligations": n, "discharged": n - rep.failed.get(prop, 0),
        "analyses": spec["analyses"],
        "samples": rep.samples.get(prop, [])[:12],
    }
    cov.update(ctx.coverage(spec["analyses"]))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d obligations, %d violation(s), %d known, %.1fs" % (prop, "ok" if rc == 0 else "BROKEN", n, len(fresh), bad - len(fresh), time.time() - t0))
    return rc


if __name__ == "__main__":
    sys.exit(main())
