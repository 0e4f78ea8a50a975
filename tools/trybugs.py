#!/usr/bin/env python3
"""trybugs.py [ids]: runs the checks named in seeded/*/meta.json against scratch clones of /repo with the bug applied."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = "/verif/seeded"
import threading
lock = threading.Lock()
ids = sys.argv[1:] or sorted(os.listdir(V))


def one(i):
    d = tempfile.mkdtemp(prefix="try-", dir="/tmp")
    w = os.path.join(d, "repo")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
        subprocess.run(["git", "apply", os.path.join(V, i, "patch.diff")], cwd=w, check=True)
        p = json.load(open(os.path.join(V, i, "meta.json")))["property"]
        r = subprocess.run([sys.executable, "check.py", p], cwd="/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=w))
        m = re.search(r"failing clauses (.*)", r.stdout)
        n = re.search(r"(\d+ of \d+) executions", r.stdout)
        with lock:
            f = "/verif/tools/caught.json"
            c = json.load(open(f)) if os.path.exists(f) else {}
            c[i] = "%s (%s)" % (p, m.group(1).strip()[:80]) if r.returncode == 1 and m else p if r.returncode == 1 else "not caught"
            json.dump(dict(sorted(c.items())), open(f, "w"), indent=1)
        print("%-8s %s rc=%d %s %s" % (i, "CAUGHT" if r.returncode == 1 else "MISSED", r.returncode, n and n.group(1), m and m.group(1)), r.stdout[-500:] if r.returncode not in (0, 1) else "", flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(3) as e:
    list(e.map(one, ids))
