"""Helpers shared by the drivers (no import of the code under test here)."""
import json
import random


def rng(ctx, salt):
    return random.Random("%s/%s/%s" % (ctx.pid, ctx.seed, salt))


def behaviours(ctx, module, cfg, num, depth, salt=0, env=None):
    """Random behaviours of a generator module, one parsed JSON value each."""
    r = ctx.tlc(module, cfg, env=env, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(ctx.seed * 1000 + salt)], workers=1)
    return [json.loads(t) for t in r.printed("GEN")]


def enumerate_all(ctx, module, cfg, env=None):
    """Everything a generator module reaches, breadth first."""
    r = ctx.tlc(module, cfg, env=env)
    return sorted((json.loads(t) for t in r.printed("GEN")), key=lambda v: json.dumps(v, sort_keys=True))


# names by lexical rank: id k (1-based) is the k-th name in lexical order
PLAIN = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"]
WORDS = sorted(["node1", "node10", "node2", "s", "t", "st", "ts", "sink", "source", "A", "B", "AB", "BA", "Zoo", "a b", "x-y",
                "aa", "aaa", "1", "2", "12", "21", "é", "ß", "alpha", "beta", "gamma", "omega", "u1", "u2", "_", "a:b"])


# neighbours differ in case, blanks, leading zeros, the way an accent is written or where a separator stands
ALIKE = ["a", "A", "a ", " a", " ", "  ", "1", "01", "1.0", "-1", "1-", "a-b", "b-c", "a-b-c", "c", "e\u0301", "\u00e9", "E", "e", "0", "00", "None", "True", "'a'", "a'", "(a, b)", "a,b", "a, b"]


def name_table(rnd, n):
    kind = rnd.randrange(5)
    if kind == 4 and n <= len(ALIKE):
        k = rnd.randrange(len(ALIKE))
        return sorted((ALIKE[k:] + ALIKE[:k])[:n])
    if kind == 0 and n <= len(PLAIN):
        return PLAIN[:n]
    if kind == 1:
        return sorted("n%d" % k for k in range(1, n + 1))
    if kind == 2 and n <= len(PLAIN):
        return sorted(rnd.sample(PLAIN, n))
    if n <= len(WORDS):
        return sorted(rnd.sample(WORDS, n))
    return sorted("v%03d" % k for k in range(n))


def attempt(fn, *args, **kw):
    """('ok', value) or ('exc', exception type name)."""
    try:
        return "ok", fn(*args, **kw)
    except RecursionError:
        raise
    except Exception as e:
        return "exc", type(e).__name__
