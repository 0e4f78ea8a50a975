"""Trace validation: TLC decides each recorded execution against the spec.

A trace module prints one line  "FAIL{json}"  per failing record, with fields
i (record index, 1-based), l (position in the history, 0 for one-step records)
and c (names of the failing clauses), and is otherwise total: whatever was
recorded, TLC terminates normally having visited a known number of states.
"""
import json
import os
import re

from . import core


UNREPRESENTED = "outside-the-specification"


def check_batch(ctx, module, part, path, cfg, timeout, heap):
    """One TLC run over `part`; returns {index: (position, clauses)}.

    Inputs are bounded so that every observation the specification admits is representable in it (32-bit integers,
    fixed shapes).  A record TLC cannot evaluate is therefore refused; TLC names it in the behaviour it prints."""
    alive = list(range(len(part)))
    refused = {}
    while True:
        with open(path, "w") as h:
            for j in alive:
                h.write(json.dumps(part[j]) + "\n")
        r = ctx.tlc(module, cfg, env={"TRACE": path}, timeout=timeout, heap=heap, ok=range(256))
        if r.rc == 0:
            break
        m = re.search(r"The behavior up to this point is:.*?\bi = (\d+)", r.out, re.S)
        if not m or not re.search(r"Overflow when computing|Attempted to|The error occurred when TLC was evaluating", r.out):
            raise core.MachineryError("TLC failed on %s (rc %d):\n%s" % (module, r.rc, r.out[-6000:]))
        refused[alive.pop(int(m.group(1)) - 1)] = (0, [UNREPRESENTED])
        if len(refused) >= 4:          # enough for a verdict: the rest is left undecided
            return refused
        if not alive:
            return refused
    expected, got = 0, {}
    for text in r.printed("FAIL"):
        d = json.loads(text)
        got[alive[d["i"] - 1]] = (d["l"], sorted(d["c"]))
    for j in alive:
        if "ev" in part[j]:          # a history: one state per position reached
            expected += (got[j][0] + 1) if j in got else (len(part[j]["ev"]) + 1)
        else:
            expected += 2
    if r.distinct != expected:
        raise core.MachineryError("trace module %s visited %d states, expected %d\n%s" % (module, r.distinct, expected, r.out[-3000:]))
    got.update(refused)
    return got


def run_trace(ctx, module, records, extra_cfg="", batch=20000, heap="6g", timeout=900):
    """Returns {index (0-based): (position, clauses)} for the failing records."""
    fails = {}
    for start in range(0, len(records), batch):
        part = records[start:start + batch]
        path = os.path.join(ctx.scratch, "trace-%s-%d.ndjson" % (module, start))
        cfg = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n" + extra_cfg
        got = check_batch(ctx, module, part, path, cfg, timeout, heap)
        for j, v in got.items():
            fails[start + j] = v
        os.unlink(path)
    return fails


def validate(ctx, mod, done):
    """Validates the executions; `done` is a list of (case, observation)."""
    records, owner = [], []
    fails = []
    for k, (case, obs) in enumerate(done):
        for rec in as_list(mod.record(case, obs)):
            records.append(rec)
            owner.append(k)
    canaries = mod.canaries() if hasattr(mod, "canaries") else []
    allrec = records + [c[0] for c in canaries]
    bad = run_trace(ctx, mod.TRACE_MODULE, allrec, getattr(mod, "TRACE_CFG", ""))
    # The binding must be able to say no: every deliberately wrong record must be refused.
    undecided = any(UNREPRESENTED in v[1] for j, v in bad.items() if j < len(records))
    for j, (rec, clause) in enumerate(canaries if not undecided else []):
        v = bad.get(len(records) + j)
        if v is None or (clause and clause not in v[1]):
            raise core.MachineryError("the trace specification accepted a wrong record (%s): %s, got %s" % (clause, json.dumps(rec)[:800], v))
    per = {}
    for j, v in bad.items():
        if j < len(records):
            per.setdefault(owner[j], []).append(v)
    for k, vs in sorted(per.items()):
        clauses = sorted({c for v in vs for c in v[1]})
        obs = done[k][1]
        fails.append((done[k][0], {"obs": obs, "at": vs[0][0]}, clauses))
    return fails, {"records": len(records), "canaries_rejected": len(canaries)}


def as_list(x):
    return x if isinstance(x, list) else [x]
