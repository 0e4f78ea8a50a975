"""L16 - the step log: histories over programs and their logs, judged by StepLog.tla."""
import re
from vf import lpgen, lpio
from vf.gen import attempt, rng

TRACE_MODULE = "TraceStepLog"
RULE = "random histories of 3 to 10 operations over up to 5 linear and integer programs (standard form and not), each with steps stored or not, in place or not, succeeding or failing: feasibility and basis questions on feasible, infeasible and basic vectors, canonical forms, simplex iterations, conversions, solvers, copies, edits and clearing"
ASSUMPTIONS = ["steps are read as their key and the numbers in their text", "what the steps of solve() on other forms, dual(), auxiliary() and of questions without the option say is not judged", "numbers are judged while the program's data stay on the lattice of 1/s"]
DESIGN = "SPECIFICATION Spec\nCONSTANTS Slots = 3\nSteps = {1, 2}\nMaxLen = %d\nCONSTRAINT Bound\nPROPERTIES OneAtATime AppendOnly Inherit\nCHECK_DEADLOCK FALSE\n"
NUM = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?")


def design(ctx):
    ctx.tlc("MCStepLog", DESIGN % ctx.pick(2, 3), timeout=2000)


OPS = ["feas"] * 6 + ["basic"] * 5 + ["canon"] * 4 + ["iter"] * 2 + ["sef"] * 4 + ["simplex"] * 4 + ["two"] * 3 + ["solve"] * 3 + ["copy"] * 3 + ["clear"] * 2 + ["row", "var", "value", "unb", "dual", "aux", "quiet"]


def cases(ctx):
    r = rng(ctx, "log")
    out = []
    for _ in range(ctx.pick(1200, 12000)):
        s = r.choice([1, 1, 2])
        m, n = r.choice([1, 2, 2, 3]), r.choice([2, 3, 3, 4])
        init = [lpgen.program(r, sef=r.random() < .7, m=m, n=max(m, n), s=s) for _ in range(r.choice([1, 1, 2]))]
        for p in init:
            cap = 5 if m < 3 else 3
            if max(abs(v) for row in p["A"] for v in row) > cap:
                p["A"] = [[max(-cap, min(cap, v)) for v in row] for row in p["A"]]
            p["b"] = [max(-99, min(99, v)) for v in p["b"]]
        ops = [{"op": r.choice(OPS), "r": r.randrange(5), "inp": int(r.random() < .4), "show": int(r.random() < .75), "pick": r.randrange(1 << 30)} for _ in range(r.randint(3, 10))]
        out.append({"s": s, "init": init, "ops": ops, "arrays": r.randint(0, 1), "kinds": [int(r.random() < .25) for _ in init]})
    return out


def step(entry):
    """A step as its key and numbers; text that does not read keeps an empty vector."""
    key, text = str(entry["key"]), str(entry["text"])
    d = {"key": key, "ints": [], "vec": dict(lpio.NOVEC)}
    if key == "5.01":
        return d
    head, tail = text, ""
    if key in ("4.04", "4.05"):
        head, _, tail = text.rpartition("asis")
    nums = [float(t) for t in NUM.findall(head)]
    if key in ("4.01", "1.01", "5.02", "5.04", "4.02"):
        d["ints"] = [int(v) if v == int(v) else -999 for v in nums]
    else:
        d["vec"] = lpio.snap(nums)
    if tail:
        d["ints"] = [int(float(t)) for t in NUM.findall(tail)]
    return d


def execute(case):
    import random
    import numpy as np
    s = case["s"]
    from pytimize.programs import IntegerProgram, LinearProgram
    progs = [lpio.make(p, cls=(LinearProgram, IntegerProgram)[k], arrays=bool(case["arrays"])) for p, k in zip(case["init"], case["kinds"])]
    table = {}
    olds = [[] for _ in progs]

    def ids(p):
        return [table.setdefault((str(e["key"]), str(e["text"])), len(table) + 1) for e in list(p.steps)]

    def text(p):
        return p.steps_string == "\n".join(str(e["text"]) for e in p.steps).strip()
    ev = []
    for o in case["ops"]:
        ri = o["r"] % len(progs)
        q = progs[ri]
        rnd = random.Random(o["pick"])
        before = lpio.read(q, s)
        m, n = before["m"], before["n"]
        op, inp, show = o["op"], o["inp"], o["show"]
        if op in ("copy", "canon", "iter", "sef", "clear", "row", "var") and not inp and len(progs) >= 5:
            continue
        if op == "copy":
            inp = 0
        if n > 9 or m > 5 or (op in ("canon", "iter", "basic", "simplex") and n < m):
            continue
        e = {"op": op, "r": ri + 1, "inp": inp if op in ("canon", "iter", "sef", "clear", "row", "var") else 0, "show": show, "x": dict(lpio.NOVEC), "B": [], "ans": 0,
             "res": {"unb": 0, "x": dict(lpio.NOVEC), "B": [], "y": dict(lpio.NOVEC)}, "first": 1}
        issef = before["obj"] == "max" and all(t == "=" for t in before["rel"]) and all(g == "+" for g in before["sgn"])
        bs = lpio.bases(before, 60) if before["k"] == "ok" and issef else []
        B, xb = rnd.choice(bs) if bs else (sorted(rnd.sample(range(1, n + 1), min(m, n))), None)
        if bs and rnd.random() < .5:
            good = [t for t in bs if all(v >= 0 for v in t[1])]
            B, xb = rnd.choice(good or bs)
        B = list(B)
        x = [rnd.choice([0, 0, 1, 2, 3, -1]) for _ in range(n)]
        if xb is not None and all(v.denominator in (1, 2, 4) for v in xb) and rnd.random() < .7:
            x = [0.0] * n
            for j, v in zip(B, xb):
                x[j - 1] = float(v)
            if rnd.random() < .3:
                x[rnd.randrange(n)] += rnd.choice([1, -1, .5])
        if op == "basic" or op == "canon":
            if rnd.random() < .4:
                rnd.shuffle(B)
            if rnd.random() < .1:
                B = [B[0]] * m if m > 1 else [n + 1]
        kw = {} if show and rnd.random() < .5 else {"show_steps": bool(show)}
        has = True
        if op in ("copy", "clear", "row", "var", "value", "quiet"):
            has, kw, e["show"] = False, {}, 1
        e["B"], e["x"] = B, lpio.snap(x)
        xa = np.array(x, dtype=float) if rnd.random() < .5 else list(x)
        ba = np.array(B) if rnd.random() < .2 and op == "basic" else list(B)
        st0 = str(q)
        ip = {"in_place": True} if e["inp"] else {}
        if op == "feas":
            k, v = attempt(q.is_feasible, xa, **kw)
            e["ans"] = int(k == "ok" and bool(v))
        elif op == "value":
            k, v = attempt(q.value_of, xa)
        elif op == "unb":
            k, v = attempt(q.verify_unboundedness, xa, [rnd.randint(0, 2) for _ in range(n)], **kw)
        elif op == "basic":
            k, v = attempt(q.is_basic_solution, xa, ba, **kw)
            e["ans"] = int(k == "ok" and bool(v))
        elif op == "canon":
            k, v = attempt(q.to_canonical_form, list(B), **kw, **ip)
        elif op == "iter":
            k, v = attempt(q.simplex_iteration, list(B), **kw, **ip)
            v = v[2] if k == "ok" else v
        elif op == "sef":
            k, v = attempt(q.to_sef, **kw, **ip)
        elif op == "simplex":
            k, v = attempt(q.simplex, list(B), **kw)
        elif op == "two":
            k, v = attempt(q.two_phase_simplex, **kw)
        elif op == "solve":
            k, v = attempt(q.solve, **kw)
        elif op == "copy":
            k, v = attempt(q.copy)
        elif op == "clear":
            k, v = attempt(q.clear_steps, **ip)
        elif op == "row":
            k, v = attempt(q.add_constraint, [rnd.randint(-2, 2) for _ in range(n)], rnd.choice(["=", "<=", ">=", "?"]), 3, **ip)
        elif op == "var":
            k, v = attempt(q.add_variable, 2, [rnd.randint(-2, 2) for _ in range(m)], False, rnd.random() < .3, **ip)
        elif op == "dual":
            k, v = attempt(q.dual, **kw)
        elif op == "aux":
            k, v = attempt(q.auxiliary, **kw)
        else:
            k, v = attempt(rnd.choice([lambda: q.evaluate(xa), lambda: q.is_basis(B), lambda: q.compute_basic_solution(B), lambda: str(q), lambda: q == q.copy(), lambda: q.cs_conditions(), lambda: q.verify_optimality([1] * m)]))
        if k == "ok" and op in ("simplex", "two"):
            a, b, c = v
            tup = isinstance(c, tuple)
            e["res"] = {"unb": int(tup), "x": lpio.snap(a), "B": [int(t) for t in b] if b is not None else [], "y": lpio.snap(c) if not tup else dict(lpio.NOVEC)}
        if k == "ok" and op == "solve":
            e["res"]["x"] = lpio.snap(v)
        e["k"] = k
        new = q
        if k == "ok" and op in ("copy", "canon", "iter", "sef", "clear", "row", "var") and not e["inp"]:
            new = v
            progs.append(v)
        e["logs"] = [ids(p) for p in progs]
        e["txt"] = int(all(text(p) for p in progs))
        raw = list(new.steps)[len(olds[ri]):]
        ps = [str(t["text"]) for t in raw if str(t["key"]) == "5.01"]
        redundant = op in ("two", "solve") and issef and len(ps) > 0 and before["k"] == "ok" and not bs
        e["first"] = int(not ps or redundant or ps[0].strip() == st0.strip())
        e["suf"] = [step(t) for t in raw]
        e["p"] = before
        olds = [list(t) for t in e["logs"]]
        ev.append(e)
    return {"ev": ev}


def record(case, obs):
    if "crash" in obs:
        p = dict(case["init"][0], k="ok")
        e = {"op": "quiet", "r": 1, "inp": 0, "show": 1, "k": obs["crash"], "logs": [[] for _ in case["init"]], "suf": [], "p": p, "x": dict(lpio.NOVEC), "B": [], "ans": 0,
             "res": {"unb": 0, "x": dict(lpio.NOVEC), "B": [], "y": dict(lpio.NOVEC)}, "first": 1, "txt": 1}
        return {"init": len(case["init"]), "ev": [e]}
    return {"init": len(case["init"]), "ev": obs["ev"]}


def coverage(done):
    n = {}
    for _, o in done:
        for e in o.get("ev", []):
            k = "%s%s:%s%s" % (e["op"], "!" if e["inp"] else "", e["k"], "" if e["show"] else " silent")
            n[k] = n.get(k, 0) + 1
    return {"operations": n}


def canaries():
    p = {"k": "ok", "m": 1, "n": 2, "s": 1, "A": [[2, 1]], "b": [4], "c": [3, 1], "z": 0, "obj": "max", "rel": ["="], "sgn": ["+", "+"]}
    N = dict(lpio.NOVEC)

    def vec(*xs, d=1):
        return {"k": "vec", "num": list(xs), "den": d}

    def st(key, ints=(), vec=N):
        return {"key": key, "ints": list(ints), "vec": vec}

    def ev(op, suf, logs=None, k="ok", inp=0, show=1, x=N, B=(), res=None, first=1, ans=0, txt=1, p=p):
        return {"op": op, "r": 1, "inp": inp, "show": show, "k": k, "logs": logs if logs is not None else [list(range(1, len(suf) + 1))], "suf": suf, "p": p, "x": x, "B": list(B), "ans": ans,
                "res": res or {"unb": 0, "x": N, "B": [], "y": N}, "first": first, "txt": txt}
    x = vec(2, 0)
    good = [st("2.01", vec=x), st("2.02", vec=x), st("2.03"), st("2.04", vec=x), st("2.05")]
    canon = [st("1.01", [1]), st("1.02", vec=vec(2)), st("1.03", vec=vec(3)), st("1.04", vec=vec(1, d=2)), st("1.05", vec=vec(3, d=2))]
    sx = [st("5.02", [0]), st("5.01"), st("5.02", [1]), st("5.01"), st("5.03", vec=x), st("5.04", [1]), st("5.06", vec=vec(3, d=2))]
    res = {"unb": 0, "x": x, "B": [1], "y": vec(3, d=2)}
    basic = [st("4.01", [1]), st("4.06"), st("4.07"), st("4.04", [1], x)]
    mn = dict(p, obj="min")

    def rec(*evs, init=1):
        return {"init": init, "ev": list(evs)}
    L = [1, 2, 3, 4, 5]
    return [(rec(ev("feas", good, x=vec(1, 0), ans=0)), "story-feas"), (rec(ev("feas", good, x=x, ans=0)), "story-feas"), (rec(ev("feas", good, x=x, ans=1, show=0)), "unasked-feas"), (rec(ev("feas", good[:4], x=x, ans=1)), "story-feas"),
            (rec(ev("feas", good, x=x, ans=1, txt=0)), "string"), (rec(ev("canon", canon, logs=[L], B=[1])), "shape"), (rec(ev("canon", canon, logs=[L, L], B=[1])), "bystander-canon"), (rec(ev("canon", canon, logs=[[], L], B=[2])), "story-canon"),
            (rec(ev("canon", canon[:3] + [st("1.04", vec=vec(1))] + canon[4:], inp=1, B=[1])), "story-canon"), (rec(ev("canon", canon[:4] + [st("1.05", vec=vec(3))], inp=1, B=[1])), "story-canon"),
            (rec(ev("feas", good, x=x, ans=1), ev("copy", [], logs=[L, []])), "copy"), (rec(ev("feas", good, x=x, ans=1), ev("clear", [], logs=[L, L])), "kept"), (rec(ev("feas", good, x=x, ans=1), ev("clear", [], logs=[[], []])), "bystander-clear"),
            (rec(ev("feas", good, x=x, ans=1), ev("quiet", [], logs=[[2, 3, 4, 5]])), "lost-quiet"), (rec(ev("simplex", sx, res=res, first=0)), "story-simplex"), (rec(ev("simplex", sx[:2] + [st("5.02", [2])] + sx[3:], res=res)), "story-simplex"),
            (rec(ev("simplex", sx[:5] + [st("5.04", [2])] + sx[6:], res=res)), "story-simplex"), (rec(ev("simplex", sx[:4] + [st("5.05")], res=res)), "story-simplex"), (rec(ev("basic", basic[:3] + [st("4.04", [0], x)], x=x, B=[1], ans=1)), "story-basic"),
            (rec(ev("sef", [st("3.01")], inp=1, p=mn)), "story-sef"), (rec(ev("sef", [st("3.01"), st("3.02"), st("3.03", vec=vec(-3, -1, 3, 1))], inp=1, p=mn)), "story-sef"), (rec(ev("feas", good, x=x, ans=1, logs=[L, [1]]), init=2), "bystander-feas"),
            (rec(ev("quiet", [], k="crash")), "outcome-crash"), (rec(ev("two", [], res=res)), "story-two")]
