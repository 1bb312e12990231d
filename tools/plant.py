#!/usr/bin/env python3
"""tools/plant.py SPEC.py [id...]: turn planted bugs into seeded/<id>/ after confirming each in a scratch
copy (/tmp/plant): it builds, the stable tests pass, the demonstration passes without and fails with it."""
import json, os, runpy, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "/tmp/plant"
run = lambda *a, **k: subprocess.run(a, capture_output=True, text=True, **k)
if not os.path.exists(D): run("cp", "-a", "/repo", D)
head = run("git", "-C", "/repo", "rev-parse", "HEAD").stdout.strip()
run("git", "-C", D, "checkout", "-q", "--", "."); run("git", "-C", D, "fetch", "-q", "/repo", "HEAD"); run("git", "-C", D, "reset", "-q", "--hard", head)
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", []) or [])


def tests():
    r = run("bash", "-c", ". /opt/vp/env.sh; cd %s; export slow_tests=1; cargo nextest run --workspace --offline --no-fail-fast --test-threads 8 --tool-config-file vp:/opt/vp/nextest.toml --profile vp 2>&1" % D)
    tail = [l for l in r.stdout.splitlines() if "Summary" in l or "FAIL" in l or l.startswith("error")]
    return r.returncode, tail


def demo(d):
    r = run("bash", os.path.join(d, "demo.sh"), cwd=D)
    return r.returncode, (r.stdout + r.stderr)[-600:]


g = runpy.run_path(sys.argv[1])
for p in g["PLANTS"]:
    if sys.argv[2:] and p["id"] not in sys.argv[2:]: continue
    run("git", "-C", D, "checkout", "-q", "--", ".")
    bad = False
    for f, a, b in p["subs"]:
        q = os.path.join(D, f)
        s = open(q).read()
        if s.count(a) < 1: print("!!", p["id"], "pattern not found", a[:60]); bad = True; break
        open(q, "w").write(s.replace(a, b, 1))
    if bad: continue
    if p.get("regen"):      # the generated parsers as the changed generator writes them
        for mode in ("bootstrap", "parsers"):
            r = run("bash", "-c", ". /opt/vp/env.sh; cd %s; rewrite=%s cargo test --offline -p fall_gen --test cli 2>&1" % (D, mode))
            if r.returncode: print("!!", p["id"], "generator fails", r.stdout[-500:])
    diff = run("git", "-C", D, "diff").stdout
    S = os.path.join("/tmp/plants", p["id"])
    shutil.rmtree(S, ignore_errors=True); os.makedirs(S)
    open(S + "/patch.diff", "w").write(diff)
    open(S + "/main.rs", "w").write(p["main"])
    deps = p.get("deps", ["fall/tree", "fall/parse"])
    names = {"fall/tree": "fall_tree", "fall/parse": "fall_parse", "fall/text": "fall_text", "fall/editor": "fall_editor", "fall/gen": "fall_gen"}
    sh = open(HERE + "/tools/demo/demo.sh").read().replace("@DEPS@", "\n".join('%s = { path = "$R/%s" }' % (names.get(x, os.path.basename(x)) if not isinstance(x, tuple) else x[1], x if not isinstance(x, tuple) else x[0]) for x in deps))
    open(S + "/demo.sh", "w").write(sh)
    if p.get("prelude", True): shutil.copy(HERE + "/tools/demo/prelude.rs", S + "/prelude.rs")
    json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(S + "/meta.json", "w"), indent=1)
    rc2, out2 = demo(S)
    run("git", "-C", D, "checkout", "-q", "--", ".")
    rc1, out1 = demo(S)
    if rc1 != 0: print("##", p["id"], "demo fails on clean tree:", rc1, out1); continue
    if rc2 == 0: print("##", p["id"], "demo passes with the patch:", out2); continue
    if rc2 == 3: print("##", p["id"], "demo does not build with the patch", out2); continue
    run("git", "-C", D, "apply", S + "/patch.diff")
    rc, tail = tests()
    chk = run("python3", HERE + "/check.py", p["prop"], env=dict(os.environ, FALL_REPO=D))
    run("git", "-C", D, "checkout", "-q", "--", ".")
    if rc != 0: print("##", p["id"], "tests fail:", tail[-6:]); continue
    dst = os.path.join(HERE, "seeded", p["id"])
    shutil.rmtree(dst, ignore_errors=True); os.makedirs(HERE + "/seeded", exist_ok=True); shutil.copytree(S, dst)
    print("##", p["id"], "kept;", p["prop"], "CAUGHT" if chk.returncode == 1 else "MISSED rc=%d" % chk.returncode, "|", tail[-1:] , "| demo:", out2.strip()[-200:])
    sys.stdout.flush()
