"""P02 - linear expressions against the grammar of Text.tla."""
import itertools
from vf.gen import attempt, rng
from drivers.P01 import CFG, codes, micro, number

TRACE_MODULE = "TraceText"
RULE = "every sequence of up to 4 (thorough: 6) of the pieces 1, 0, 10, x_, x, _, +, -, ., space; random well-formed sums of up to 8 terms with and without a requested size, a few with indices of up to five digits; those with one to three characters inserted, deleted, replaced or swapped; repeated indices"
ASSUMPTIONS = ["coefficients with up to three digits before and six behind the point; indices up to 70000"]
JUNK = list(" +-*x_.,01239X\n\ty^") + ["x_", "_x", "x_0", "++", "+-", "--", "-+", "x_1", "1x_1", ""]


def design(ctx):
    ctx.tlc("MCText", CFG % (ctx.pick(5, 7), 1), timeout=2500)


def mangle(r, t):
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.randint(0, len(t))
        how = r.randrange(6)
        if how == 0:
            t = t[:k] + r.choice(JUNK) + t[k:]
        elif how == 1:
            t = t[:k] + t[k + 1:]
        elif how == 2:
            t = t[:k] + r.choice(JUNK) + t[k + 1:]
        elif how == 3 and len(t) > 1:
            k = r.randint(0, len(t) - 2)
            t = t[:k] + t[k + 1] + t[k] + t[k + 2:]
        elif how == 4:
            t = r.choice(["+" + t, "-" + t, t + "+", t + "-", t + "\n", " " + t, t + " ", t + "x", t + "1x_", "x_1+" + t, t.replace("x_", "x", 1), t.replace("x_", "_", 1), t.replace("+", "+-", 1), t.replace("-", "--", 1), t.replace("+", " + ", 1)])
        else:
            t = r.choice([t.replace("x_", "x_0", 1), t.replace("x_1", "x_0", 1), t.replace(".", "", 1), t.replace(".", "..", 1), t.replace(".", ",", 1), t.replace("+", "", 1)])
    return t


def fits(t, top=200):
    """Numbers the specification can hold; indices small."""
    run, dot, idx = "", False, False
    for ch in t + " ":
        if ch.isdigit():
            if ch not in "0123456789":
                return False
            run += ch
        else:
            if run and (idx and (len(run) > 6 or int(run) > top) or len(run) > (6 if dot or idx else 3)):
                return False
            run, dot, idx = "", ch == ".", ch == "_"
    return True


def cases(ctx):
    r = rng(ctx, "lintext")
    pieces = ["1", "0", "10", "x_", "x", "_", "+", "-", ".", " "]
    texts = []
    for k in range(0, ctx.pick(4, 6)):
        texts += ["".join(q) for q in itertools.product(pieces, repeat=k)]
    if ctx.quick:
        texts += ["".join(r.choice(pieces) for _ in range(r.randint(4, 7))) for _ in range(2000)]
    texts += ["".join(q) for q in itertools.product(["1x_1", "2x_2", "1x_2", "+", "-", ".5", "x_1", "0", " "], repeat=3)]
    out = [(t, 0) for t in texts]
    for _ in range(ctx.pick(4000, 60000)):
        top = r.choice([3, 6, 15, 40])
        n = r.choice([1, 1, 2, 3, 4, 6, 8, 8 if r.random() < .9 else 30])
        idx = r.sample(range(1, top + 1), min(n, top)) if r.random() < .9 else [r.randint(1, top) for _ in range(n)]
        if r.random() < .5:
            idx.sort()
        t = ""
        for j in idx:
            g = r.choice(["+", "-"]) if t else r.choice(["", "", "-"])
            t += g + number(r) + "x_" + str(j)
        if r.random() < .5:
            t = mangle(r, t)
        size = 0 if r.random() < .6 else max(1, max(idx) + r.choice([0, 0, 1, 3, 10, -1]))
        out.append((t, size))
    far = []
    for k in range(ctx.pick(10, 60)):                # indices of up to five digits
        j = r.choice([999, 1000, 1024, 4096, 9999, 10000, 12345, 32768, 65536, r.randint(300, 70000)])
        t = number(r) + "x_" + str(j)
        if r.random() < .5:
            t += r.choice("+-") + number(r) + "x_" + str(r.randint(1, 9))
        far.append((t, 0 if r.random() < .5 else j + r.choice([0, 0, 1, -1, 40])))
    return [{"t": t, "size": n, "ask": r.randint(0, 2), "again": 0} for t, n in far] + [{"t": t, "size": n, "ask": r.randint(0, 2), "again": int(r.random() < .25)} for t, n in dict.fromkeys(out) if fits(t)]


def execute(case):
    import numpy as np
    from pytimize.parsers import LinearParser
    va = 9
    if case["ask"] == 0:
        k, v = attempt(LinearParser.validate_expression, case["t"])
        va = int(bool(v)) if k == "ok" else 8
    if case["again"]:                                # an earlier result of the same text, which its owner changed
        k, v = attempt(LinearParser.parse, case["t"], case["size"]) if case["size"] else attempt(LinearParser.parse, case["t"])
        if k == "ok" and isinstance(v, np.ndarray) and v.flags.writeable:
            v += 3
    k, v = attempt(LinearParser.parse, case["t"], case["size"]) if case["size"] else attempt(LinearParser.parse, case["t"])
    if k == "ok":
        v = [micro(float(w)) for w in v[0]] if isinstance(v, np.ndarray) and v.ndim == 2 and v.shape[0] == 1 else [-77777777]
    else:
        v = []
    return {"k": k, "v": v, "va": va}


def record(case, obs):
    if "crash" in obs:
        obs = {"k": obs["crash"], "v": [], "va": 9}
    return dict(obs, f="linear", t=codes(case["t"]), size=case["size"], ty=9)


def coverage(done):
    return {"accepted": sum(o.get("k") == "ok" for _, o in done), "refused": sum(o.get("k") == "exc" for _, o in done)}


def canaries():
    def rec(t, v=(), k="ok", size=0, va=9):
        return {"f": "linear", "t": codes(t), "k": k, "v": [w * 1000000 for w in v], "ty": 9, "size": size, "va": va}
    return [(rec("1x_1", [2]), "vector"), (rec("1x_2", [1]), "vector"), (rec("1x_2-3x_1", [3, 1]), "vector"), (rec("1x_1", [1], size=2), "vector"), (rec("1x_1", [1, 0]), "vector"), (rec("1x_1", k="exc"), "refused"), (rec("1x_1+1x_1", [2]), "accepted"),
            (rec("1x_0", [1]), "accepted"), (rec("+1x_1", [1]), "accepted"), (rec("1x_1+-1x_2", [1, -1]), "accepted"), (rec("1x_1 ", [1]), "accepted"), (rec("1x_1\n", [1]), "accepted"), (rec("", []), "accepted"), (rec("x_1", [1]), "accepted"), (rec("1.x_1", [1]), "accepted"),
            (rec("1x_3", [0, 0], size=2), "size"), (rec("1x_1", [1], va=0), "validate"), (rec("1x_", k="exc", va=1), "validate"), (rec("1x_10", [1]), "vector")]
