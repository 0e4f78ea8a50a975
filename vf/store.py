"""Histories of operations over a store of programs: execution and recording."""
import json

from . import exactlp, lpgen, lpio
from .gen import attempt

MAKES = ("copy", "relax", "dual", "sef", "clear", "row", "var", "aux", "canon", "iter")


def integral(prog, lists):
    """Which variables an integer program holds to be integral: the list of `lists` with which it equals a new program."""
    from pytimize.programs import IntegerProgram
    for k in lists:
        other = IntegerProgram(prog.A, prog.b, prog.c, prog.z, prog.objective, prog.inequalities, prog.free_variables, prog.negative_variables, k and list(k))
        if prog == other:
            return k or []
    return [-1]


def content(prog, s, lists=(None,)):
    """(key, content): the key is the program's data to 12 digits."""
    from pytimize.programs import IntegerProgram
    kind = "IP" if isinstance(prog, IntegerProgram) else "LP"
    ints = integral(prog, lists) if kind == "IP" else []
    ok, p = lpio.frame(prog)
    num = lambda v: "%.12g" % (float(v) + 0.0)
    key = json.dumps([kind, ints, ok, p, [[num(v) for v in r] for r in prog.A], [num(v) for v in prog.b], [num(v) for v in prog.c], num(prog.z)])
    lat = lpio.read(prog, s)
    return key, {"kind": kind, "ints": ints, "p": lat, "r": lpio.read_rows(prog, s=s)}


def num(v, s):
    return v // s if v % s == 0 else v / s


def vecarg(a, s, nd):
    xs = [num(v, s) for v in a]
    if nd:
        import numpy as np
        return np.array(xs, dtype=float)
    return xs


def plain(x):
    """A comparable deep copy of an argument."""
    import numpy as np
    if isinstance(x, np.ndarray):
        return ["nd", str(x.dtype), x.tolist()]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [plain(v) for v in x]
    return repr(x)


def scribble(x):
    """The caller reuses an argument for something else."""
    import numpy as np
    if isinstance(x, np.ndarray):
        if x.size and x.flags.writeable:
            x += 7
    elif isinstance(x, list):
        for k, v in enumerate(x):
            if isinstance(v, list):
                scribble(v)
            elif isinstance(v, (int, float)):
                x[k] = v + 7
        if x and isinstance(x[0], str):
            x[0] = "="


def construct(init, s, held):
    """Programs from caller-owned arguments, which are appended to `held`."""
    import numpy as np
    from pytimize.programs import IntegerProgram, LinearProgram
    out = []
    prev = None
    for q in init:
        p = q["p"]
        if q.get("share") and prev is not None:
            args = prev
        else:
            A = [[num(v, s) for v in r] for r in p["A"]]
            b = [num(v, s) for v in p["b"]]
            c = [num(v, s) for v in p["c"]]
            if q["nd"]:
                A, b, c = np.array(A, dtype=float).reshape(p["m"], p["n"]), np.array(b, dtype=float), np.array(c, dtype=float)
            args = [A, b, c, num(p["z"], s), p["obj"], list(p["rel"]), [j + 1 for j, g in enumerate(p["sgn"]) if g == "f"], [j + 1 for j, g in enumerate(p["sgn"]) if g == "-"]]
            held.extend(a for a in args if isinstance(a, (list, np.ndarray)))
        prev = args
        extra = []
        if q["kind"] == "IP" and q.get("ints"):
            extra = [list(q["ints"])]
            held.extend(extra)
        out.append((IntegerProgram if q["kind"] == "IP" else LinearProgram)(*args, *extra))
    return out


ASKS = {"solve": lambda p, e, x: p.solve(), "optimal_value": lambda p, e, x: p.optimal_value(), "two_phase": lambda p, e, x: p.two_phase_simplex(), "repr": lambda p, e, x: repr(p),
        "is_feasible": lambda p, e, x: p.is_feasible(x), "evaluate": lambda p, e, x: p.evaluate(x), "value_of": lambda p, e, x: p.value_of(x), "steps": lambda p, e, x: p.steps_string,
        "is_basis": lambda p, e, x: p.is_basis(x), "basic": lambda p, e, x: p.compute_basic_solution(x), "canonical": lambda p, e, x: p.is_canonical_form_for(x), "feasible_basis": lambda p, e, x: p.is_basis_feasible(x),
        "simplex": lambda p, e, x: p.simplex(x), "infeasibility": lambda p, e, x: p.verify_infeasibility(x), "optimality": lambda p, e, x: p.verify_optimality(x)}


def run(case, final=False):
    s = case["s"]
    held = []
    progs = construct(case["init"], s, held)
    shadow = [plain(h) for h in held]
    tab, index = [], {}
    lists = [q["ints"] for q in case["init"] if q.get("ints")]
    lists = [None] + lists + [[v + 7 for v in k] for k in lists]

    def see():
        out = []
        for q in progs:
            key, c = content(q, s, lists)
            if key not in index:
                tab.append(c)
                index[key] = len(tab)
            out.append(index[key])
        return out
    out = {"init": see(), "ev": []}
    for e in case["ops"]:
        o = dict(e)
        if e["r"] > len(progs) or e.get("q", 1) > len(progs):
            continue                        # an operation that should have made it was refused
        p = progs[e["r"] - 1]
        op, inp, args, made = e["op"], bool(e["inp"]), [], None
        if op == "copy":
            k, v = attempt(p.copy)
        elif op == "relax":
            k, v = attempt(p.relax) if hasattr(p, "relax") else attempt(p.copy)
            if not hasattr(p, "relax"):
                o["op"] = "copy"
        elif op == "dual":
            k, v = attempt(p.dual)
        elif op == "aux":
            k, v = attempt(p.auxiliary)
        elif op == "sef":
            k, v = attempt(p.to_sef, in_place=inp)
        elif op == "clear":
            o["n0"] = len(p.steps)
            k, v = attempt(p.clear_steps, in_place=inp)
            o["n1"], o["n2"] = len(p.steps), len(v.steps) if k == "ok" else 0
        elif op == "row":
            args = [vecarg(e["a"], s, e["nd"])]
            rel, t = e["rel"], num(e["t"], s)
            how = e.get("how")
            if how == "value":
                t = str(t)
            elif how == "matrix":
                args = [[args[0] if isinstance(args[0], list) else args[0].tolist()]]
            elif how == "string":
                args = [[str(v) for v in args[0]]]
            k, v = attempt(p.add_constraint, args[0], rel, t, in_place=inp)
        elif op == "var":
            args = [None if e["nocol"] else vecarg(e["a"], s, e["nd"])]
            k, v = attempt(p.add_variable, "7" if e["bad"] else num(e["t"], s), args[0], bool(e["free"]), bool(e["neg"]), in_place=inp)
        elif op in ("canon", "iter"):
            args = [list(e["B"])]
            if op == "canon":
                k, v = attempt(p.to_canonical_form, args[0], in_place=inp)
            else:
                k, v = attempt(p.simplex_iteration, args[0], in_place=inp)
                v = v[2] if k == "ok" else v
        elif op == "ask":
            x = list(e["B"]) if e["what"] in ("is_basis", "basic", "canonical", "feasible_basis", "simplex") else vecarg(e["a"], s, e["nd"])
            args = [x]
            k, v = attempt(ASKS[e["what"]], p, e, x)
        elif op == "eq":
            k, v = attempt(lambda: p == progs[e["q"] - 1])
            o["v"] = int(bool(v)) if k == "ok" else 0
        elif op == "poke":
            for h in held:
                scribble(h)
            shadow = [plain(h) for h in held]
            k, v = "ok", None
        o["k"], o["self"] = k, 0
        if k == "ok" and op in MAKES:
            o["self"] = int(v is p)
            if not inp:
                made = v
        o["args"] = int([plain(h) for h in held] == shadow)
        for a in args:
            if isinstance(a, list) or hasattr(a, "dtype"):
                o["args"] = int(o["args"] and plain(a) == plain_of(e, a, s))
                held.append(a)
                shadow.append(plain(a))
        if made is not None:
            progs.append(made)
        try:
            o["after"] = see()
        except Exception:
            o["k"], o["after"] = "broken", [0] * len(progs)
        out["ev"].append(o)
        if o["k"] == "broken":
            break
    if final and out["ev"] and out["ev"][-1]["k"] != "broken":
        for r in range(1, len(progs) + 1):
            c = tab[out["ev"][-1]["after"][r - 1] - 1]["p"]
            if c["k"] != "ok":
                continue
            kv = attempt(progs[r - 1].solve)
            o = {"op": "final", "r": r, "inp": 0, "k": kv[0], "self": 0, "args": 1, "sef": int(bool(progs[r - 1].is_sef)),
                 "x": lpio.snap(kv[1]) if kv[0] == "ok" else dict(lpio.NOVEC)}
            o["after"] = see()
            out["ev"].append(o)
    out["tab"] = tab
    return out


def plain_of(e, a, s):
    """What the argument looked like when it was passed."""
    if e["op"] in ("canon", "iter") or e["op"] == "ask" and isinstance(a, list) and e["what"] in ("is_basis", "basic", "canonical", "feasible_basis", "simplex"):
        return plain(list(e["B"]))
    if e.get("how") == "matrix":
        x = vecarg(e["a"], s, e["nd"])
        return plain([x if isinstance(x, list) else x.tolist()])
    if e.get("how") == "string":
        return plain([str(v) for v in vecarg(e["a"], s, e["nd"])])
    return plain(vecarg(e["a"], s, e["nd"]))


def record(case, obs):
    if "crash" in obs:
        return {"tab": [], "init": [], "ev": [{"op": "crash-" + obs["crash"], "r": 1, "inp": 0, "k": "crash", "self": 0, "after": [1], "args": 0}]}
    for e in obs["ev"]:
        if e["op"] == "final" and "w" not in e:
            p = obs["tab"][e["after"][e["r"] - 1] - 1]["p"]
            w = lpgen.truth(p)
            if w is None or (e["x"]["k"] == "vec" and not exactlp.fits(p, e["x"])):
                e["op"] = "skip"
            else:
                e["w"] = w
    return {"tab": obs["tab"], "init": obs["init"], "ev": obs["ev"]}
