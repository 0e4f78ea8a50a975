#!/usr/bin/env python3
"""Offline setup: every specification must parse (nothing is compiled)."""
import os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
d = tempfile.mkdtemp(prefix="vf-setup-")
try:
    mods = sorted(f for f in os.listdir(os.path.join(V, "spec")) if f.endswith(".tla"))
    for f in mods:
        shutil.copy(os.path.join(V, "spec", f), d)
    p = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-cp", CP, "tla2sany.SANY", *mods], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = p.stdout.decode("utf-8", "replace")
    if p.returncode or "*** Errors" in out or "Fatal" in out:
        print("\n".join(t for t in out.split("\n") if not t.startswith(("Parsing file", "Semantic processing", "Linting", "****** SANY2")) and t.strip())[:4000])
        sys.exit(1)
    print("setup ok: %d modules parse" % len(mods))
finally:
    shutil.rmtree(d, ignore_errors=True)
