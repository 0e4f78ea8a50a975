"""P01 - graph expressions against the grammar of Text.tla."""
import itertools
from vf.gen import attempt, rng

TRACE_MODULE = "TraceText"
RULE = "every text of up to 5 characters (thorough: 7) over {a, 1, -, :, space, .}; random well-formed texts of every form with up to 8 terms, a few with up to 80; those with one to three characters inserted, deleted, replaced or swapped; mixtures of forms"
ASSUMPTIONS = ["weights with up to three digits before and six behind the point; decimal digits are ASCII"]
CFG = "SPECIFICATION Spec\nCONSTANTS L = %d\nKind = %d\nINVARIANT Safe\nCHECK_DEADLOCK FALSE\n"
JUNK = list(" -:.,_+a1b\n\t;'\"/\\()[]{}=–é") + ["  ", "--", "::", "..", " :", "\r", "\u00a0", "\x0b", ""]


def design(ctx):
    ctx.tlc("MCText", CFG % (ctx.pick(4, 6), 0), timeout=2500)


def number(r):
    t = "".join(r.choice("0123456789") for _ in range(r.choice([1, 1, 2, 3])))
    if r.random() < .45:
        t += "." + "".join(r.choice("0123456789") for _ in range(r.randint(1, 6)))
    return t


WORDC = "abcdxyzABZ019_éßλ"


def term(r, f):
    if f % 2 == 0:
        t = r.choice(WORDC) + r.choice(WORDC)
    else:
        w = lambda: "".join(r.choice(WORDC) for _ in range(r.choice([1, 1, 2, 3, 5])))
        t = w() + "-" + w()
    return t + (":" + number(r) if f >= 2 else "")


def mangle(r, t):
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.randint(0, len(t))
        how = r.randrange(5)
        if how == 0:
            t = t[:k] + r.choice(JUNK) + t[k:]
        elif how == 1:
            t = t[:k] + t[k + 1:]
        elif how == 2:
            t = t[:k] + r.choice(JUNK) + t[k + 1:]
        elif how == 3 and len(t) > 1:
            k = r.randint(0, len(t) - 2)
            t = t[:k] + t[k + 1] + t[k] + t[k + 2:]
        else:
            t = r.choice([t + " ", " " + t, t + "\n", t.replace(" ", "  ", 1), t.replace(" ", ",", 1), t.replace(" ", "\n", 1), t.replace("-", " - ", 1), t + ".", t.replace(":", ": ", 1), t.replace(":", ":-", 1), t.replace(":", ":+", 1), t + "e1"])
    return t


def digits_fit(t):
    """At most three digits before and six behind a point, at most a few otherwise."""
    run, dot = 0, False
    for ch in t + "x":
        if ch.isdigit():
            run += 1
        else:
            if run > (6 if dot else 3):
                return False
            run, dot = 0, ch == "."
    return all(not ch.isdigit() or ch in "0123456789" for ch in t)


def cases(ctx):
    r = rng(ctx, "graphtext")
    texts = ["".join(q) for k in range(0, ctx.pick(5, 7)) for q in itertools.product("a1-: .", repeat=k)]
    if ctx.quick:
        texts += ["".join(r.choice("a1-: .") for _ in range(5)) for _ in range(1200)]
        texts += ["".join(q) for q in itertools.product("a-:1 ", repeat=5) if r.random() < .5]
    for _ in range(ctx.pick(3500, 60000)):
        f = r.randrange(4)
        t = " ".join(term(r, f if r.random() < .97 else r.randrange(4)) for _ in range(r.choice([1, 1, 2, 3, 4, 8] if r.random() < .98 else [20, 40, 80])))
        if r.random() < .6:
            t = mangle(r, t)
        texts.append(t)
    return [{"t": t, "ask": r.randint(0, 2), "again": int(r.random() < .25)} for t in dict.fromkeys(texts) if digits_fit(t)]


def codes(t):
    return [ord(c) for c in t]


def micro(w):
    if isinstance(w, bool) or not isinstance(w, (int, float)) or w != w or abs(w) > 2000:
        return -77777777
    k = round(w * 1000000)
    return k if abs(w * 1000000 - k) < 1e-4 else -77777777


def execute(case):
    from pytimize.parsers import GraphParser
    ty = 9
    if case["ask"] == 0:
        k, v = attempt(GraphParser.get_expression_type, case["t"])
        ty = v if k == "ok" and type(v) is int and -1 <= v <= 3 else 8
    if case["again"]:                                # an earlier result of the same text, which its owner changed
        k, v = attempt(GraphParser.parse, case["t"])
        if k == "ok" and isinstance(v, list):
            v.reverse()
            v.append(("a", "b", 1))
    k, v = attempt(GraphParser.parse, case["t"])
    if k == "ok":
        try:
            v = [[codes(a), codes(b), micro(w)] for a, b, w in v]
        except (TypeError, ValueError):
            v = [[[], [], -1]]
    else:
        v = []
    return {"k": k, "v": v, "ty": ty}


def record(case, obs):
    if "crash" in obs:
        obs = {"k": obs["crash"], "v": [], "ty": 9}
    return dict(obs, f="graph", t=codes(case["t"]), size=0, va=9)


def coverage(done):
    return {"accepted": sum(o.get("k") == "ok" for _, o in done), "refused": sum(o.get("k") == "exc" for _, o in done)}


def canaries():
    def rec(t, v=(), k="ok", ty=9):
        return {"f": "graph", "t": codes(t), "k": k, "v": [[codes(a), codes(b), w] for a, b, w in v], "ty": ty, "size": 0, "va": 9}
    return [(rec("ab"), "triples"), (rec("ab", k="exc"), "refused"), (rec("ab", [("b", "a", 0)]), "triples"), (rec("ab:1", [("a", "b", 0)]), "triples"), (rec("a-b:1.5 c-d:2", [("a", "b", 1500000), ("c", "d", 2000001)]), "triples"),
            (rec("a-b:1.5 c-d:2", [("c", "d", 2000000), ("a", "b", 1500000)]), "triples"), (rec("ab "), "accepted"), (rec("ab\n", [("a", "b", 0)]), "accepted"), (rec("ab c-d", [("a", "b", 0), ("c", "d", 0)]), "accepted"), (rec(""), "accepted"),
            (rec("ab:-1", [("a", "b", -1000000)]), "accepted"), (rec("ab", [("a", "b", 0)], ty=1), "form"), (rec("ab ", k="exc", ty=0), "form"), (rec("ab  cd", [("a", "b", 0), ("c", "d", 0)]), "accepted"), (rec("ab:.5", [("a", "b", 500000)]), "accepted")]
