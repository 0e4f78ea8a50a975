"""U01 - steepest descent and Newton's method against Descent.tla."""
from fractions import Fraction as F
from vf.gen import attempt, rng

TRACE_MODULE = "TraceDescent"
RULE = "strictly convex (concave) integer quadratics in up to 4 variables, minimised and maximised; every point of the first iterations (limits 0, 1, 2, ...), exact; stopping at tolerances around the gradient norms met; final results with default and varied step parameters, tolerances and argument types; quartic, hyperbolic, exponential and steep functions, whose steps are told from tables of comparisons"
ASSUMPTIONS = ["quadratics are diagonally dominant", "starting points, step lengths and shrink factors are dyadic, so that iterates of quadratics are exact; no ties of the decrease condition unless it is exact", "comparisons of non-quadratic values closer than rounding errors are left undecided"]


def design(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS Diag = %s\nOff = %s\nG = %d\nMost = %d\nCs = %s\nINVARIANT Safe\nCHECK_DEADLOCK FALSE\n"
    ctx.tlc("MCDescent", cfg % ("{1, 2}", "{1}", 1, 1, "{2}"))
    if not ctx.quick:
        ctx.tlc("MCDescent", cfg % ("{1, 2, 3}", "{0, 1}", 1, 2, "{1, 2, 3}"), timeout=2500)


def problem(r, n, top):
    Q = [[0] * n for _ in range(n)]
    for a in range(n):
        for b in range(a):
            Q[a][b] = Q[b][a] = r.choice([0, 1, -1, 0, 2, -2]) if top > 4 else r.choice([0, 0, 1, -1])
    for a in range(n):
        Q[a][a] = sum(map(abs, Q[a])) + r.randint(1, max(1, top - sum(map(abs, Q[a]))))
        if Q[a][a] > top + 2:
            return problem(r, n, top)
    sg = r.choice([1, -1])
    return {"n": n, "Q": [[sg * v for v in row] for row in Q], "q": [r.randint(-6, 6) for _ in range(n)], "sg": sg,
            "al": r.choice([[1, 1], [1, 1], [2, 1], [1, 2], [4, 1], [3, 1], [1, 4]]), "pd": r.choice([2, 2, 2, 4]), "c": r.choice([[7, 10], [7, 10], [1, 2], [1, 4], [3, 4], [1, 8], [9, 10], [1, 10], [3, 8]])}


def path(p, x0, most):
    """Exact iterates as long as the specification's integers hold them; None on ties with inexact c."""
    xs = [[F(v) for v in x0]]
    n, Q, sg = p["n"], p["Q"], p["sg"]
    al, c = F(*p["al"]), F(*p["c"])
    need = [1]
    for _ in range(most):
        x = xs[-1]
        g = [sum(Q[a][b] * x[b] for b in range(n)) + p["q"][a] for a in range(n)]
        gg = sum(v * v for v in g)
        bend = sg * sum(g[a] * Q[a][b] * g[b] for a in range(n) for b in range(n))
        a, ad = al, p["al"][1]
        while a * bend > 2 * (1 - c) * gg:
            a /= p["pd"]
            ad *= p["pd"]
        if p["c"][1] == 10 and gg:
            t = al
            for _ in range(40):
                if t * bend == 2 * (1 - c) * gg:
                    return None
                t /= p["pd"]
        y = [u - a * sg * v for u, v in zip(x, g)]
        sc = max(v.denominator for v in y + x + need[:0] + [F(1, need[0])])
        pts = xs + [y]
        big = max(abs(v * sc) for z in pts for v in z)
        gr = max(abs(sum(Q[i][j] * z[j] for j in range(n)) + p["q"][i]) for z in pts for i in range(n)) * sc
        qm = max(abs(v) for row in Q for v in row)
        if gr * gr * qm * n * n * p["al"][0] * p["c"][1] * 4 >= 2 ** 30 or 20 * gr * gr * n * ad >= 2 ** 30 or big * ad * 4 >= 2 ** 30:
            break
        xs.append(y)
        need = [sc]
    return xs, max(v.denominator for z in xs for v in z)


def between(g, low):
    """A tolerance between different norms of a gradient, where they tell apart."""
    import numpy as np
    g = np.abs(g)
    most, length, total = float(g.max()), float(np.linalg.norm(g)), float(g.sum())
    if 1e-6 < length < 1e9 and most < .99 * length < .98 * total:
        return (most * length) ** .5 if low else (length * total) ** .5


def cases(ctx):
    r = rng(ctx, "descent")
    out = []
    want = ctx.pick(1500, 20000)
    while len(out) < want:
        n = r.choice([1, 1, 2, 2, 2, 3])
        p = problem(r, n, r.choice([2, 2, 3, 4, 8]))
        x0 = [r.randint(-4, 4) for _ in range(n)]
        if r.random() < .08 and n == 1 and p["q"][0] % p["Q"][0][0] == 0:
            x0 = [-p["q"][0] // p["Q"][0][0]]
        got = path(p, x0, 7)
        if got is None or len(got[0]) < 2:
            continue
        xs, sc = got
        k = len(xs) - 1
        norms = []
        for z in xs:
            g = [sum(p["Q"][a][b] * z[b] for b in range(n)) + p["q"][a] for a in range(n)]
            norms.append(sum(v * v for v in g))
        m = r.choice(norms)
        t = max(1, round(float(m) ** .5 * 16))
        tol = r.choice([[t + r.choice([-1, 1, 0, 0]), 16], [t // 16 + 1, 1], [0, 1], [1, 16], [1, 4]])
        if any(norm and abs(float(norm) ** .5 / max(tol[0] / tol[1], 1e-9) - 1) < 1e-9 and norm != F(tol[0], tol[1]) ** 2 for norm in norms):
            continue
        g2 = max(norms) * sc * sc
        if tol[0] < 0 or g2 * tol[1] ** 2 >= 2 ** 30 or (tol[0] * sc) ** 2 >= 2 ** 30:
            tol = [0, 1]
        out.append({"f": "path", "p": p, "x0": x0, "limits": k, "sc": sc, "tol": tol, "types": r.randint(0, 5)})
    for _ in range(ctx.pick(500, 6000)):
        n = r.choice([1, 2, 2, 3, 4])
        p = problem(r, n, 8)
        out.append({"f": "end", "p": p, "x0": [r.randint(-15, 15) for _ in range(n)], "method": r.choice(["newton", "steep", "steep"]), "tol": r.choice([0, 0, 0, 100, 1000, 10, 50000]),
                    "how": r.randint(0, 2), "types": r.randint(0, 5)})
    for _ in range(ctx.pick(900, 9000)):
        n = r.choice([1, 1, 2, 3])
        kind = r.choice(["quartic", "quartic", "cosh", "exp", "steep"])
        alg = r.choice(["steep", "newton"])
        fn = {"kind": kind, "t": [r.choice([0, .5, 1, -2, 3, -.75]) for _ in range(n)],
              "a": [r.choice({"quartic": [0, 1, 1, 4, 60], "cosh": [.5, 1, 2, 8], "exp": [.5, 1, 2, -1, 4], "steep": [1, 50, 1000, 4096, 30000]}[kind]) for _ in range(n)],
              "b": [r.choice([1, 1, .25, 6, 40]) for _ in range(n)], "mix": r.choice([0, 0, 1, .5])}
        if kind == "steep" and max(fn["a"]) > 60 * min(fn["a"]):                     # crawls
            fn["a"] = [fn["a"][0]] * n
        x0 = [fn["t"][j] + r.choice([0, 1, -1, .5, -.25, 2, .01]) for j in range(n)] if r.random() < .95 else list(fn["t"])
        if kind in ("quartic", "steep") and r.random() < .15:                        # from far away
            x0 = [v * r.choice([100, -300, 5000]) + r.choice([0, 100]) for v in x0]
        case = {"f": "walk", "alg": alg, "fn": fn, "p": {"sg": r.choice([1, -1]), "n": n}, "x0": x0,
                    "al": r.choice([1, 1, 1, 2, .5, .3, 8]), "c": r.choice([.7, .7, .5, .1, .3, .9]), "pd": r.choice([.5, .5, .25, .7, .9, .1]), "limit": r.randint(0, 9), "tol": r.choice([0, .005, .1, 1, 10, 1e-4, 1e-6]), "types": r.randint(0, 5), "args": r.randint(0, 1)}
        if n > 1 and r.random() < .7:
            if alg == "newton" and r.random() < .6:                                  # all of them still far
                case["x0"] = [v + r.choice([2, 3, -1.5, 4]) for v in fn["t"]]
                case["limit"] = min(3, case["limit"])
            case["between"] = [r.randint(min(1, case["limit"]), min(4, case["limit"])), r.randint(0, 1)]
        out.append(case)
    out += [{"f": "sense", "s": s, "want": int(s in ("min", "max")), "p": problem(r, 1, 2)} for s in ("min", "max", "Min", "maximize", "", "mi", "a", "in", "minmax", "MAX")]
    return out


def functions(p, types):
    import numpy as np
    n, Q, q = p["n"], p["Q"], p["q"]

    def f(x):
        return sum(Q[a][b] * x[a] * x[b] for a in range(n) for b in range(n)) / 2 + sum(q[a] * x[a] for a in range(n))

    def df(x):
        g = [sum(Q[a][b] * x[b] for b in range(n)) + q[a] for a in range(n)]
        return np.array(g) if types % 2 else g

    def d2f(x):
        return np.array(Q) if types % 2 else [list(v) for v in Q]
    return f, df, d2f


def smooth(fn, n):
    """Value, gradient and Hessian of a smooth strictly convex function."""
    import numpy as np
    t, a, b = (np.array(fn[k], dtype=float) for k in ("t", "a", "b"))
    kind, mix = fn["kind"], fn["mix"] if n > 1 else 0

    def both(x, y):
        return mix * (x - y) ** 2 / 2

    def f(x):
        d = np.asarray(x, dtype=float) - t
        v = {"quartic": lambda: a * d ** 4 / 4 + b * d ** 2 / 2, "cosh": lambda: np.cosh(a * d), "exp": lambda: np.exp(a * d) - a * d + b * d ** 2 / 2, "steep": lambda: a * d ** 2 / 2}[kind]()
        return float(np.sum(v) + (both(d[0], d[1]) if mix else 0))

    def df(x):
        d = np.asarray(x, dtype=float) - t
        v = {"quartic": lambda: a * d ** 3 + b * d, "cosh": lambda: a * np.sinh(a * d), "exp": lambda: a * np.exp(a * d) - a + b * d, "steep": lambda: a * d}[kind]()
        if mix:
            v[0] += mix * (d[0] - d[1])
            v[1] -= mix * (d[0] - d[1])
        return v

    def d2f(x):
        d = np.asarray(x, dtype=float) - t
        h = np.diag({"quartic": lambda: 3 * a * d ** 2 + b, "cosh": lambda: a * a * np.cosh(a * d), "exp": lambda: a * a * np.exp(a * d) + b, "steep": lambda: a + 0 * d}[kind]())
        if mix:
            h[0][0] += mix
            h[1][1] += mix
            h[0][1] -= mix
            h[1][0] -= mix
        return h
    return f, df, d2f


def walk(case):
    import numpy as np
    from pytimize.programs import UnconstrainedProgram
    np.seterr(all="ignore")
    n, sg, tol, limit = case["p"]["n"], case["p"]["sg"], case["tol"], case["limit"]
    f, df, d2f = smooth(case["fn"], n)
    ty = case["types"]
    sf, sdf, sd2f = (lambda x: sg * f(x)), (lambda x: sg * df(x) if ty % 2 else [float(v) for v in sg * df(x)]), (lambda x: sg * d2f(x) if ty % 2 else [[float(v) for v in w] for w in sg * d2f(x)])
    prog = UnconstrainedProgram(sf, "min" if sg == 1 else "max")
    same = 1
    newton = case["alg"] == "newton"
    al, c, pd = (case["al"], case["c"], case["pd"]) if case["args"] else (1, .7, .5)

    def run(**kw):
        nonlocal same
        x = np.array(case["x0"], dtype=float) if ty < 3 else [float(v) for v in case["x0"]]
        keep = list(x)
        if newton:
            k, y = attempt(prog.newton_method, x, sdf, sd2f, **kw)
        else:
            k, y = attempt(prog.steepest_descent, x, sdf, **dict(kw, **({"alpha": al, "c": c, "p": pd} if case["args"] else {})))
        if list(x) != keep or type(x) is not type(np.zeros(1) if ty < 3 else []):
            same = 0
        if k != "ok":
            return k, None
        y = np.array(y, dtype=float)
        return ("ok", y) if y.shape == (n,) and np.all(np.isfinite(y)) else ("off", None)

    def tri(lhs, rhs, eps):
        """lhs <= rhs?"""
        if lhs != lhs or lhs == float("inf"):
            return 0
        return 2 if abs(lhs - rhs) <= eps else int(lhs <= rhs)

    def close(u, v, size):
        return bool(np.all(np.abs(u - v) <= 1e-9 * size + 1e-12))

    def within(x, tl):
        g = float(np.linalg.norm(df(x)))
        return tri(g, tl, 1e-7 * tl + 1e-12)
    xs = []
    for m in range(limit + 1):
        k, y = run(tolerance=0, max_iteration=m)
        if k != "ok":
            return {"k": k, "same": same}
        xs.append(y)
    steps = []
    for x, y in zip(xs, xs[1:]):
        g = df(x)
        gg = float(g @ g)
        if newton:
            h = d2f(x)
            res = h @ (y - x) + g
            steps.append({"ok": [1], "fits": [1] if close(res, 0 * res, float(np.max(np.abs(g)) + np.max(np.abs(h)) * (np.max(np.abs(x)) + np.max(np.abs(y))))) else [], "worse": 0})
            continue
        ok, fits, a = [], [], al
        fx = f(x)
        for e in range(400):
            z = x - a * g
            fz = f(z)
            ok.append(tri(fz, fx - c * a * gg, 1e-12 * (abs(fx) + 1) + 1e-9 * c * a * gg))
            if close(y, z, float(np.max(np.abs(x)))) and (gg == 0 or a * np.max(np.abs(g)) < 1e-8 or np.max(np.abs(y - z)) <= 1e-4 * a * np.max(np.abs(g))):
                fits.append(e + 1)
            if ok[-1] == 1:
                break
            a *= pd
        steps.append({"ok": ok, "fits": fits, "worse": int(f(y) > fx + 1e-9 * (abs(fx) + 1))})
    if case.get("between"):
        tol = between(df(xs[case["between"][0]]), case["between"][1]) or tol
    k, y = run(tolerance=tol, max_iteration=limit)
    if k != "ok":
        return {"k": k, "same": same}
    at = [j + 1 for j, x in enumerate(xs) if close(x, y, 1e-3 * float(np.max(np.abs(x))))]
    end = 1
    if newton or case["fn"]["kind"] != "quartic":
        k, z = run(**({"tolerance": tol} if tol >= 1e-4 else {}))
        if k != "ok":
            return {"k": k, "same": same}
        end = within(z, max(tol, 1e-4))
    return {"k": "ok", "steps": steps, "near": [within(x, tol) for x in xs], "at": at, "end": end, "start": int(close(xs[0], np.array(case["x0"], dtype=float), 1e-6)), "same": same}


def start(x0, types):
    import numpy as np
    k = types // 2
    return np.array(x0, dtype=float) if k == 0 else np.array(x0) if k == 1 else [float(v) for v in x0] if types == 4 else list(x0)


def execute(case):
    import numpy as np
    from pytimize.programs import UnconstrainedProgram
    p = case["p"]
    if case["f"] == "walk":
        return walk(case)
    f, df, d2f = functions(p, case.get("types", 0))
    if case["f"] == "sense":
        return {"k": attempt(UnconstrainedProgram, f, case["s"])[0]}
    prog = UnconstrainedProgram(f, "min" if p["sg"] == 1 else "max") if case["types"] or p["sg"] == -1 else UnconstrainedProgram(f)
    same = 1

    def run(method, **kw):
        nonlocal same
        x = start(case["x0"], case["types"])
        keep = list(x)
        k, y = attempt(method, x, **kw)
        if list(x) != keep or type(x) is not type(start(case["x0"], case["types"])):
            same = 0
        return k, y
    if case["f"] == "path":
        kw = {"df": df, "alpha": p["al"][0] / p["al"][1], "c": p["c"][0] / p["c"][1], "p": 1 / p["pd"]}
        sc, xs, k = case["sc"], [], "ok"

        def point(y):
            z = [float(v) * sc for v in y]
            ok = all(v == v and abs(v) < 2 ** 20 and abs(v - round(v)) < 1e-6 for v in z) and len(z) == p["n"]
            return ok, [round(v) for v in z] if ok else []
        tol = case["tol"]
        for limit, tl in [(t, 0) for t in range(case["limits"] + 1)] + [(case["limits"], tol[0] / tol[1])]:
            a, y = run(prog.steepest_descent, tolerance=tl, max_iteration=limit, **kw)
            if a != "ok":
                return {"k": a, "same": same}
            ok, z = point(y)
            if not ok:
                return {"k": "off", "same": same}
            xs.append(z)
        return {"k": k, "xs": xs[:-1], "y": xs[-1], "same": same}
    kw = {"tolerance": case["tol"] / 1e6} if case["tol"] else {}
    if case["method"] == "newton":
        k, y = run(prog.newton_method, df=df, d2f=d2f, **dict(kw, **({"max_iteration": 3} if case["how"] == 1 else {})))
    else:
        if case["how"] == 1:
            kw.update(alpha=p["al"][0] / p["al"][1], c=p["c"][0] / p["c"][1], p=1 / p["pd"])
        elif case["how"] == 2:
            kw.update(alpha=.7, c=.3, p=.6)
        k, y = run(prog.steepest_descent, df=df, **kw)
    if k != "ok":
        return {"k": k, "same": same}
    z = [float(v) * 1e6 for v in y]
    if len(z) != p["n"] or any(v != v or abs(v) > 3e7 for v in z):
        return {"k": "far", "same": same}
    return {"k": k, "y": [round(v) for v in z], "same": same}


def record(case, obs):
    if "crash" in obs:
        obs = {"k": obs["crash"], "same": 1}
    p = case["p"]
    if case["f"] == "sense":
        return {"f": "sense", "p": p, "k": obs["k"], "want": case["want"], "same": 1}
    if case["f"] == "walk":
        return {"f": "walk", "p": p, "k": obs["k"], "same": obs["same"], **{k: obs.get(k, d) for k, d in (("steps", []), ("near", [1]), ("at", [1]), ("end", 1), ("start", 1))}}
    if case["f"] == "path":
        return {"f": "path", "p": p, "k": obs["k"], "x0": case["x0"], "sc": case["sc"], "xs": obs.get("xs", []), "tol": case["tol"], "y": obs.get("y", []), "same": obs["same"]}
    return {"f": "end", "p": p, "k": obs["k"], "tol": case["tol"] or 100, "y": obs.get("y", []), "same": obs["same"]}


def coverage(done):
    n = {}
    for c, o in done:
        k = c["f"] + (" " + c["alg"] + " " + c["fn"]["kind"] if c["f"] == "walk" else " " + c["method"] if c["f"] == "end" else "") + (" max" if c["p"]["sg"] < 0 else " min")
        n[k] = n.get(k, 0) + 1
    n["points checked"] = sum(len(o.get("xs", [])) for _, o in done)
    n["stopped early"] = sum(c["f"] == "path" and bool(o.get("xs")) and o["y"] != o["xs"][-1] for c, o in done)
    return n


def canaries():
    p = {"n": 1, "Q": [[2]], "q": [-2], "sg": 1, "al": [1, 1], "pd": 2, "c": [1, 4]}       # x^2 - 2x from 3: g = 4, a = 1/2 -> 1
    m = dict(p, Q=[[-2]], q=[2], sg=-1)
    s = dict(p, c=[3, 4])                                                                # a = 1/4: 3 -> 2 -> 3/2

    def rec(p, xs, y=None, x0=3, sc=2, tol=(0, 1), k="ok", same=1):
        return {"f": "path", "p": p, "k": k, "x0": [x0], "sc": sc, "xs": [[v] for v in xs], "tol": list(tol), "y": [xs[-1] if y is None else y], "same": same}

    def end(p, y, tol=100, k="ok", same=1):
        return {"f": "end", "p": p, "k": k, "tol": tol, "y": [y], "same": same}

    def wk(ok=(0, 1), fits=(2,), near=(0, 0, 1, 1), at=(3,), worse=0, **kw):
        return dict({"f": "walk", "p": p, "k": "ok", "same": 1, "steps": [{"ok": list(ok), "fits": list(fits), "worse": worse}], "near": list(near), "at": list(at), "end": 1, "start": 1}, **kw)
    walks = [(wk(fits=[1]), "step"), (wk(fits=[]), "step"), (wk(ok=[0, 1, 1], fits=[3]), "step"), (wk(worse=1), "worse"), (wk(at=[4]), "stop"), (wk(at=[2]), "stop"), (wk(at=[]), "stop"), (wk(at=[1]), "stop"),
             (wk(near=(0, 0), at=[1]), "stop"), (wk(end=0), "optimum"), (wk(start=0), "start"), (wk(k="exc"), "outcome-exc")]
    return walks + [(rec(p, [6, 4]), "step"), (rec(p, [6, -2]), "step"), (rec(m, [6, 10]), "step"), (rec(s, [6, 2]), "step"), (rec(s, [6, 4, 4]), "step"), (rec(s, [4, 3]), "start"), (rec(s, [6, 4, 3], tol=(2, 1)), "stop"), (rec(s, [6, 4, 3], y=4, tol=(1, 1)), "stop"),
            (rec(s, [6, 4, 3], y=6, tol=(2, 1)), "stop"), (rec(s, [6, 4, 3], k="exc"), "outcome-exc"), (rec(s, [6, 4, 3], same=0), "altered"), (end(p, 1000100), "optimum"), (end(m, -1000000), "optimum"), (end(p, 1000000, same=0), "altered"), (end(p, 0, k="far"), "outcome-far"),
            ({"f": "sense", "p": p, "k": "ok", "want": 0, "same": 1}, "sense"), ({"f": "sense", "p": p, "k": "exc", "want": 1, "same": 1}, "sense")]
