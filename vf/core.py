"""Orchestration shared by every check: TLC runs, workers, verdicts, evidence.

A check has three parts (see DESIGN.md):
  1. design : TLC explores the specification itself on small constants;
  2. record : the real code of /repo is run on behaviours/cases generated from
              the specification and from seeded generators; every observation
              is written down as one JSON record with a fixed schema;
  3. trace  : TLC checks every record (or every step of every history) against
              the specification and prints the clauses that fail.
"""
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
VENV_PY = "/opt/venv/bin/python"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 2)


class MachineryError(Exception):
    pass


class Tlc:
    """The outcome of one TLC run."""

    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        self.generated = self.distinct = 0
        m = None
        for m in re.finditer(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out):
            pass
        if m:
            self.generated = int(m.group(1).replace(",", ""))
            self.distinct = int(m.group(2).replace(",", ""))
        else:
            m = re.search(r"The number of states generated: ([\d,]+)", out)
            if m:
                self.generated = self.distinct = int(m.group(1).replace(",", ""))

    def printed(self, tag):
        """Values printed by the spec as one JSON string per line: tag + json."""
        res = []
        for line in self.out.splitlines():
            line = line.strip()
            if line.startswith('"' + tag):
                try:
                    res.append(json.loads(line)[len(tag):])
                except ValueError:
                    raise MachineryError("unreadable TLC output line: " + line[:300])
        return res


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % pid)
        self.states = self.transitions = 0
        self.tlc_runs = []
        self.t0 = time.time()

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg, env=None, args=(), timeout=600, workers=None, heap="4g", ok=(0,), count=True):
        """Runs TLC on spec/<module>.tla with the configuration text `cfg`."""
        n = len(self.tlc_runs)
        d = os.path.join(self.scratch, "tlc%d" % n)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, "MC.cfg"), "w") as h:
            h.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Dfile.encoding=UTF-8",
               "-Djava.io.tmpdir=" + d,
               "-cp", TLA_CP, "tlc2.TLC", "-nowarning", "-deadlock", "-noGenerateSpecTE", "-metadir", os.path.join(d, "states"),
               "-workers", str(workers or CORES), "-fp", "1", *args, "-config", "MC.cfg", module + ".tla"]
        e = dict(os.environ, **(env or {}))
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s" % module)
        out = p.stdout.decode("utf-8", "replace")
        r = Tlc(out, p.returncode, time.time() - t)
        self.tlc_runs.append((module, p.returncode, round(r.wall, 2), r.generated, r.distinct))
        if p.returncode not in ok:
            raise MachineryError("TLC failed on %s (rc %d):\n%s" % (module, p.returncode, out[-6000:]))
        if count:
            self.states += r.distinct
            self.transitions += r.generated
        shutil.rmtree(d, ignore_errors=True)
        return r

    # -- running the real code ----------------------------------------------
    def execute(self, driver, cases, workers=CORES, wall=300):
        return run_workers(self, driver, cases, workers, wall)


def run_workers(ctx, driver, cases, workers, wall):
    """Runs driver.execute on every case in worker processes; returns a list of
    observations aligned with cases (None where a case was skipped)."""
    if not cases:
        return []
    workers = max(1, min(workers, (len(cases) + 19) // 20))
    base = tempfile.mkdtemp(prefix="w-", dir=ctx.scratch)
    mpl = os.path.join(base, "mpl")
    if os.path.isdir("/opt/vp/mplconfig"):
        shutil.copytree("/opt/vp/mplconfig", mpl)
    else:
        os.makedirs(mpl)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(base, "pyc"),
               PYTHONPATH=REPO + os.pathsep + VERIF, MPLBACKEND="Agg", MPLCONFIGDIR=mpl,
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONHASHSEED=str(ctx.seed % 1000), PYTHONUTF8="1")
    procs = []
    for w in range(workers):
        idx = list(range(w, len(cases), workers))
        cin = os.path.join(base, "in%d.json" % w)
        with open(cin, "w") as h:
            json.dump([[i, cases[i]] for i in idx], h)
        cout = os.path.join(base, "out%d.ndjson" % w)
        err = open(os.path.join(base, "err%d" % w), "wb")
        p = subprocess.Popen([VENV_PY, "-B", "-m", "vf.worker", driver, cin, cout], cwd=base, env=env,
                             stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
        procs.append((p, idx, cout, w))
    end = time.time() + wall
    res = [None] * len(cases)
    problems = []
    for p, idx, cout, w in procs:
        killed = False
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            killed = True
        started = None
        if os.path.exists(cout):
            with open(cout) as h:
                for line in h:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if "start" in d:
                        started = d["start"]
                    else:
                        res[d["i"]] = d["obs"]
                        started = None
        if p.returncode != 0 and not killed and started is None:
            with open(os.path.join(base, "err%d" % w), "rb") as h:
                problems.append(h.read().decode("utf-8", "replace")[-3000:])
        if started is not None and res[started] is None:
            # The worker died or hung inside the code under test.
            res[started] = {"crash": "hang" if killed else "died"}
    if problems:
        raise MachineryError("worker failed:\n" + problems[0])
    shutil.rmtree(base, ignore_errors=True)
    return res


# -- verdict, evidence ------------------------------------------------------
def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as h:
        return json.load(h)["findings"]


def case_key(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def write_replay(pid, payload):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha256(json.dumps(payload, sort_keys=True, default=str).encode()).hexdigest()[:12]))
    with open(path, "w") as h:
        json.dump(payload, h, indent=1, default=str)
    return path


def write_evidence(ctx, coverage, assumptions, violations):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    cov = {"states": ctx.states, "transitions": ctx.transitions}
    cov.update(coverage)
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking", "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": violations}
    with open(os.path.join(d, ctx.pid + ".json"), "w") as h:
        json.dump(ev, h, indent=1, default=str)
