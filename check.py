#!/usr/bin/env python3
"""check.py <property> : runs one check (tier and seed from VERIF_TIER, VERIF_SEED).
check.py <property> --replay FILE : re-runs one recorded violation."""
import importlib
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vf import core, trace  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("drivers." + pid)
    ctx = core.Ctx(pid, tier, seed)
    try:
        if "--replay" in sys.argv:
            with open(sys.argv[sys.argv.index("--replay") + 1]) as h:
                rep = json.load(h)
            cases = [rep["case"]]
        else:
            if hasattr(mod, "design"):
                mod.design(ctx)
            cases = mod.cases(ctx)
        obs = core.run_workers(ctx, pid, cases, core.CORES, ctx.pick(420, 3600))
        done = [(c, o) for c, o in zip(cases, obs) if o is not None]
        if not done:
            raise core.MachineryError("no case was run")
        fails, stats = trace.validate(ctx, mod, done)
        known = {(k["property"], k["key"]): k for k in core.load_known()}
        bad = []
        seen_known = {}
        for case, o, clauses in fails:
            key = mod.known_key(case, clauses) if hasattr(mod, "known_key") else core.case_key(case)
            k = known.get((pid, key))
            if k:
                seen_known[key] = k
            else:
                bad.append((case, o, clauses))
        for k in seen_known.values():
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        nontrivial = stats.pop("nontrivial", None)
        samples = [{"case": c, "observed": o} for c, o in done[:: max(1, len(done) // 3)][:3]]
        cov = {"traces_validated_against_impl": len(done), "evaluations": len(done),
               "distinct_nontrivial": len({core.case_key(c) for c, o in done}),
               "rule": getattr(mod, "RULE", "distinct generated cases"),
               "samples": json.loads(json.dumps(samples, default=str)[:60000]) if len(json.dumps(samples, default=str)) < 60000 else [str(s)[:4000] for s in samples],
               "tlc_runs": [dict(zip(("module", "rc", "wall_s", "generated", "distinct"), r)) for r in ctx.tlc_runs],
               "skipped_cases": len(cases) - len(done)}
        cov.update(stats)
        if hasattr(mod, "coverage"):
            try:
                cov.update(mod.coverage(done))
            except Exception as e:      # statistics of odd observations never decide anything
                if not bad:
                    raise
                cov["coverage_error"] = repr(e)
        if "--replay" not in sys.argv:
            core.write_evidence(ctx, cov, getattr(mod, "ASSUMPTIONS", []), len(bad))
        if bad:
            case, o, clauses = bad[0]
            for c, ob, cl in bad[:5]:
                print("failing clauses %s\n  case %s\n  observed %s" % (cl, json.dumps(c)[:1500], json.dumps(ob)[:1500]))
            path = core.write_replay(pid, {"property": pid, "clauses": clauses, "case": case, "observed": o,
                                           "rerun": "python check.py %s --replay <this file>" % pid})
            print("%d of %d executions violate %s" % (len(bad), len(done), pid))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("OK property=%s executions=%d states=%d wall=%.1fs" % (pid, len(done), ctx.states, __import__("time").time() - ctx.t0))
        return 0
    except core.MachineryError as e:
        print("MACHINERY ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
