#!/usr/bin/env python3
"""mkbug.py FILE.py [ids]: builds /verif/seeded/<id>/ from BUGS = [dict(id, p, f, edits=[(old, new)], demo, needs, breaks)],
keeping only bugs that are confirmed: the patch applies, the stable tests pass with it, the demonstration passes on
/repo's HEAD and fails with the patch."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = "/verif/seeded"
want = sys.argv[2:]
for b in runpy.run_path(sys.argv[1])["BUGS"]:
    if want and b["id"] not in want:
        continue
    d = tempfile.mkdtemp(prefix="bug-", dir="/tmp")
    w = os.path.join(d, "repo")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
        for e in b["edits"]:
            f, old, new = e if len(e) == 3 else (b["f"], *e)
            p = os.path.join(w, "pytimize", f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "SKIPPED", s.count(old), repr(old)[:120])
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE, text=True).stdout
        # which removed lines are the original repository's?
        o = os.path.join(V, b["id"])
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        open(os.path.join(o, "patch.diff"), "w").write(diff)
        open(os.path.join(o, "demo.py"), "w").write(b["demo"].strip() + "\n")
        open(os.path.join(o, "demo.sh"), "w").write('#!/bin/sh\n# run in the repository; exits 0 when the property holds\nPYTHONPATH="$PWD" exec timeout 250 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(o, "demo.sh"), 0o755)
        json.dump({"property": b["p"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
        good = subprocess.run([os.path.join(o, "demo.sh")], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        bad = subprocess.run([os.path.join(o, "demo.sh")], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        t = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "pytimize"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, PYTHONPATH=w, MPLBACKEND="Agg"))
        plus = set()
        ok = good.returncode == 0 and bad.returncode != 0 and t.returncode == 0
        bl = []
        for e in b["edits"]:
            f, old = (e[0], e[1]) if len(e) == 3 else (b["f"], e[0])
            src = open("/repo/pytimize/" + f).read()
            a = src[:src.index(old)].count("\n") + 1
            z = a + old.rstrip("\n").count("\n")
            x = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-L%d,%d" % (a, z), "pytimize/" + f], stdout=subprocess.PIPE, text=True).stdout
            bl += [l.startswith("^") for l in x.splitlines()]
        print("%-8s %s good=%d bad=%d tests=%d base lines %d/%d" % (b["id"], "OK " if ok else "REJECTED", good.returncode, bad.returncode, t.returncode, sum(bl), len(bl)))
        if not ok:
            print("   ", good.stdout[-300:] if good.returncode else "", t.stdout[-600:] if t.returncode else "")
            shutil.rmtree(o)
    finally:
        shutil.rmtree(d, ignore_errors=True)
