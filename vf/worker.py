"""Worker process: runs driver.execute(case) on the real code, one case at a
time, under a CPU-time limit, and writes one JSON line per case."""
import importlib
import json
import os
import resource
import signal
import sys

CPU_LIMIT = float(os.environ.get("VF_CASE_CPU", "12"))


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def main():
    driver, cin, cout = sys.argv[1:4]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(1000)
    signal.signal(signal.SIGPROF, _alarm)
    mod = importlib.import_module("drivers." + driver)
    with open(cin) as h:
        cases = json.load(h)
    timeouts = 0
    with open(cout, "w") as out:
        import warnings
        warnings.simplefilter("ignore")
        for i, case in cases:
            out.write(json.dumps({"start": i}) + "\n")
            out.flush()
            signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
            try:
                obs = mod.execute(case)
                signal.setitimer(signal.ITIMER_PROF, 0)
            except CaseTimeout:
                signal.setitimer(signal.ITIMER_PROF, 0)
                obs = {"crash": "timeout"}
                timeouts += 1
            except (MemoryError,):
                signal.setitimer(signal.ITIMER_PROF, 0)
                obs = {"crash": "memory"}
            except (KeyboardInterrupt,):
                raise
            except Exception as exc:
                # The recorder could not make sense of what the code returned.
                signal.setitimer(signal.ITIMER_PROF, 0)
                import traceback
                obs = {"crash": "malformed", "detail": traceback.format_exc()[-1500:]}
            except SystemExit:
                signal.setitimer(signal.ITIMER_PROF, 0)
                obs = {"crash": "exit"}
            out.write(json.dumps({"i": i, "obs": obs}) + "\n")
            out.flush()
            if timeouts >= 2:
                break


if __name__ == "__main__":
    main()
