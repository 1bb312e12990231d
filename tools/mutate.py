#!/usr/bin/env python3
"""tools/mutate.py MUTS.py [name...]: apply each mutation (name, file, old, new[, props]) to a scratch
copy of /repo (/tmp/mut) and print which checks report it.  Development aid; no check uses it."""
import os, subprocess, sys, runpy, re, shutil
D = os.environ.get("MUTDIR", "/tmp/mut")
SRC = os.environ.get("MUTREPO", "/repo")
if not os.path.exists(D): subprocess.run(["cp", "-a", SRC, D], check=True)
subprocess.run(["git", "-C", D, "checkout", "-q", "--", "."], check=True)
head = subprocess.run(["git", "-C", SRC, "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
subprocess.run(["git", "-C", D, "fetch", "-q", SRC, "HEAD"], check=True)
subprocess.run(["git", "-C", D, "reset", "-q", "--hard", head], check=True)
g = runpy.run_path(sys.argv[1])
sel = sys.argv[2:]
for m in g["MUTS"]:
    name, file, subs, props = m[0], m[1], m[2], m[3]
    if sel and name not in sel: continue
    for f in ([file] if isinstance(file, str) else file):
        p = os.path.join(D, f)
        s = open(p).read()
        for a, b in subs:
            if a not in s:
                if isinstance(file, str): print("!!", name, "pattern not found:", a[:50])
                continue
            s = s.replace(a, b, 1)
        open(p, "w").write(s)
    res = []
    env = dict(os.environ, FALL_REPO=D, FALL_CACHE=os.environ.get("MUTCACHE", "/tmp/mutcache"))
    for pr in props:
        r = subprocess.run(["python3", "/verif/check.py", pr], env=env, capture_output=True, text=True)
        if r.returncode == 1 and "VIOLATION" in r.stdout:
            ks = [l for l in r.stdout.splitlines() if l.startswith(pr + ":")]
            res.append("%s: %d  %s" % (pr, len(ks), ks[0][:170]))
        elif r.returncode == 0: res.append("%s quiet" % pr)
        else: res.append("%s rc=%d %s" % (pr, r.returncode, (r.stderr or r.stdout).strip().splitlines()[-1][:200]))
    print("## %s" % name)
    for x in res: print("   ", x)
    sys.stdout.flush()
    subprocess.run(["git", "-C", D, "checkout", "-q", "--", "."], check=True)
