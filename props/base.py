import copy

from sim import problems as P

ERR = ["ValueError", "ZeroDivisionError", "RuntimeError", "OSError", "MemoryError", "TimeoutError",
       "FloatingPointError", "AssertionError", "StopIteration", "RecursionError"]
FLAGS = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 20, 21, 30}


class Prop:
    id = title = ""
    level = "exploration"
    quick_n, thorough_n = 200, 4000
    quick_wall, thorough_wall = 420.0, 3600.0
    rule = ""
    sig_measure = "the full event log of a run (evaluated points, results of file and stream operations, injected faults)"
    assumptions = ["numpy/LAPACK are deterministic for fixed inputs on one machine (OpenBLAS, one thread)",
                   "CPython 3.12 delivers sys.monitoring events deterministically"]

    def gen(self, r, i, tier):
        raise NotImplementedError

    def run(self, sc, ctx):
        raise NotImplementedError


def fault_index(r, n, hi=40):
    """where in the sequence of evaluations to strike: start-up, the first steps,
    or anywhere later"""
    z = r.random()
    if z < 0.2:
        return r.randint(0, n)
    if z < 0.55:
        return r.randint(n + 1, n + 5)
    return r.randint(n + 1, hi)


def gen_fault(r, nc, exc=True, values=True, cfault=True):
    kinds = []
    if exc:
        kinds += ["f_exc:" + r.choice(ERR)] * 2
        if nc and cfault:
            kinds += ["c_exc:" + r.choice(ERR)] * 2
    if values:
        kinds += ["f_nan", "f_inf", "f_ninf"]
        if nc and cfault:
            kinds += ["c_nan"]
    return r.choice(kinds)


def problem(r, **kw):
    s = P.gen_problem(r, **kw)
    if r.random() < 0.5:
        s["cb"] = P.gen_cb(r)
    return s


def clone(s, **kw):
    c = copy.deepcopy(s)
    for k, v in kw.items():
        if v is None:
            c.pop(k, None)
        else:
            c[k] = v
    return c


def num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def ok_eval(e, nc):
    """an evaluation the black box answered completely with usable numbers"""
    import math
    if not num(e.get("f")) or not math.isfinite(e["f"]):
        return False
    if nc:
        c = e.get("c")
        if not isinstance(c, tuple) or any(v != v for v in c):
            return False
    return True


def log_sig(ctx, r, extra=()):
    ctx.sig(r.get("log"), extra)


def xs(r):
    return [e["x"] for e in r["evals"]]


def same_run(ctx, a, b, kind, what, keys=("outcome",)):
    """two runs must be the same optimisation: same points, same answers, same result"""
    xa, xb = xs(a), xs(b)
    for k, (p, q) in enumerate(zip(xa, xb)):
        if p != q:
            ctx.bad(kind, "%s: evaluation %d is at %s instead of %s" % (what, k, fmt(q), fmt(p)))
    if len(xa) != len(xb):
        ctx.bad(kind, "%s: %d evaluations instead of %d" % (what, len(xb), len(xa)))
    for k in keys:
        if a.get(k) != b.get(k):
            ctx.bad(kind, "%s: %s differs: %s instead of %s" % (what, k, diff(b.get(k), a.get(k)), diff(a.get(k), b.get(k))))


def diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return str({k: a.get(k) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)})[:300]
    if isinstance(a, str) and isinstance(b, str):
        la, lb = a.split("\n"), b.split("\n")
        for i in range(max(len(la), len(lb))):
            p = la[i] if i < len(la) else None
            q = lb[i] if i < len(lb) else None
            if p != q:
                return "line %d %r" % (i + 1, p)
    return str(a)[:300]


def fmt(x):
    return "(" + ", ".join("%.17g" % v for v in x) + ")" if isinstance(x, (tuple, list)) else str(x)
