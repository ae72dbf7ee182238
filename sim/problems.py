"""Generated black boxes.  A problem is a small JSON object; everything random in
it is derived from integer seeds stored inside it, so a scenario file is complete."""
import math
import random

import numpy as np

EXC = {"ValueError": ValueError, "ZeroDivisionError": ZeroDivisionError, "RuntimeError": RuntimeError,
       "OSError": OSError, "MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt,
       "SystemExit": SystemExit, "TimeoutError": TimeoutError, "FloatingPointError": FloatingPointError,
       "AssertionError": AssertionError, "StopIteration": StopIteration, "GeneratorExit": GeneratorExit,
       "RecursionError": RecursionError}

F_FAULTS = ["f_exc", "f_nan", "f_inf", "f_ninf"]
C_FAULTS = ["c_exc", "c_nan"]
C_BIG = {"c_inf": math.inf, "c_ninf": -math.inf, "c_big": 3e26, "c_nbig": -3e26}


def h01(*key):
    """deterministic number in [-1,1) from a key"""
    return random.Random(repr(key)).random() * 2 - 1


class Params:
    def __init__(self, seed, n):
        r = random.Random("obj/%d/%d" % (seed, n))
        self.xs = [r.uniform(-1.5, 1.5) for _ in range(n)]
        self.w = [r.uniform(0.3, 3.0) for _ in range(n)]
        self.g = [r.uniform(-1, 1) for _ in range(n)]
        self.A = [[r.uniform(-1, 1) for _ in range(n)] for _ in range(n)]
        self.r = r.uniform(0.5, 2.0)


def _finite(v):
    return v


def objective(kind, seed, n):
    p = Params(seed, n)

    def quad(x):
        s = 0.0
        for i in range(n):
            t = 0.0
            for j in range(n):
                t += p.A[i][j] * (x[j] - p.xs[j])
            s += t * t
        for i in range(n):
            s += 0.2 * p.w[i] * (x[i] - p.xs[i]) ** 2
        return s
    if kind == "quad":
        return quad
    if kind == "sphere":
        return lambda x: sum((x[i] - p.xs[i]) ** 2 for i in range(n))
    if kind == "rosen":
        return lambda x: (1 - x[0]) ** 2 + sum(10 * (x[i + 1] - x[i] ** 2) ** 2 for i in range(n - 1))
    if kind == "exp":
        return lambda x: math.exp(0.3 * sum(x[i] - p.xs[i] for i in range(n))) + sum((x[i] - p.xs[i]) ** 2 for i in range(n))
    if kind == "cubic":
        return lambda x: quad(x) + 0.1 * sum((x[i] - p.xs[i]) ** 3 for i in range(n))
    if kind == "abs":
        return lambda x: sum(p.w[i] * abs(x[i] - p.xs[i]) for i in range(n))
    if kind == "trig":
        return lambda x: sum(p.w[i] * math.cos(2 * x[i] + p.g[i]) for i in range(n)) + 0.1 * quad(x)
    if kind == "lin":
        return lambda x: sum(p.g[i] * x[i] for i in range(n))
    if kind == "const":
        return lambda x: p.r
    if kind == "step":
        return lambda x: float(math.floor(3 * quad(x)))
    if kind == "huge":
        return lambda x: 1e12 * quad(x)
    if kind == "tiny":
        return lambda x: 1e-9 * quad(x)
    if kind == "shift":
        return lambda x: 1e4 + quad(x)
    if kind == "concave":
        return lambda x: -quad(x)
    if kind == "log":        # undefined outside a half space: raises there
        return lambda x: quad(x) - math.log(p.r + 1.0 + x[0])
    if kind == "sqrt":
        return lambda x: math.sqrt(1.0 + quad(x))
    if kind == "quartic":
        return lambda x: sum(p.w[i] * (x[i] - p.xs[i]) ** 4 for i in range(n))
    raise KeyError(kind)


SMOOTH = ["quad", "sphere", "rosen", "exp", "cubic", "sqrt", "shift", "trig", "quartic"]
ROUGH = ["abs", "step", "const", "lin", "tiny", "huge", "concave"]
ALL_OBJ = SMOOTH + ROUGH


def anchor(seed, n):
    r = random.Random("anchor/%d/%d" % (seed, n))
    return [r.uniform(-1, 1) for _ in range(n)]


def constraint(spec, n, xf):
    r = random.Random("con/%s/%d" % (spec["seed"], n))
    a = [r.uniform(-1, 1) for _ in range(n)]
    q = r.uniform(0.05, 0.4)
    kind, off = spec["kind"], spec.get("off", 0.0)

    def lin(x):
        return sum(a[i] * (x[i] - xf[i]) for i in range(n))
    if kind == "lin":
        return lambda x: lin(x) + off
    if kind == "quad":
        return lambda x: lin(x) + q * sum((x[i] - xf[i]) ** 2 for i in range(n)) + off
    if kind == "ball":      # feasible inside a ball round xf
        return lambda x: (0.2 + q) - sum((x[i] - xf[i]) ** 2 for i in range(n)) + off
    if kind == "trig":
        return lambda x: math.sin(lin(x)) + 0.5 * lin(x) + off
    if kind == "const":     # violated everywhere if off < 0 (or != 0 for equalities)
        return lambda x: off
    if kind == "wall":      # infinite beyond a wall
        return lambda x: lin(x) + off if a[0] * (x[0] - xf[0]) > -1.0 else spec.get("beyond", -1) * math.inf
    if kind == "bilin":
        return lambda x: (x[0] * x[-1] - xf[0] * xf[-1]) + 0.3 * lin(x) + off
    raise KeyError(kind)


class Recorder:
    """the black box's own account of what was asked and what was answered"""

    def __init__(self):
        self.evals = []     # [{'x':tuple,'f':..,'c':..,'fc':n,'cc':n}]
        self.calls = []     # ('f'|'c', x)
        self.bad_args = []
        self.closed = False
        self.after_close = 0

    def xs(self):
        return [e["x"] for e in self.evals]


class BlackBox:
    """spec -> callbacks f, c (plain functions) plus their ledger"""

    def __init__(self, spec, sim=None, rec=None, hook=None):
        self.spec, self.sim = spec, sim
        self.rec = rec or Recorder()
        n = self.n = spec["n"]
        self.me, self.mi = spec.get("me", 0), spec.get("mi", 0)
        self.nc = self.me + self.mi
        obj = objective(spec["obj"]["kind"], spec["obj"]["seed"], n)
        xf = anchor(spec.get("anchor", 0), n)
        cons = [constraint(c, n, xf) for c in spec.get("con", [])[:self.nc]]
        if spec["obj"].get("zero0"):     # exactly zero at the first evaluated point
            raw, first = obj, []

            def obj(x):
                v = raw(x)
                if not first:
                    first.append(v)
                return v - first[0]
        if spec["obj"].get("neg"):
            raw2, obj = obj, lambda x: raw2(x) - 1e3
        noise = spec.get("noise") or {}
        amp, nseed, both = noise.get("amp", 0.0), noise.get("seed", 0), noise.get("both", False)
        trans = spec.get("transient") or {}
        faults = {int(k): v for k, v in (spec.get("evalfaults") or {}).items()}
        cb = spec.get("cb") or {}
        rec, simref = self.rec, sim
        buf = np.zeros(self.nc)
        fbuf = np.zeros(1)
        self.hook = hook
        me_ = self

        def note(x):
            if rec.closed:
                rec.after_close += 1
            ok = isinstance(x, (list, tuple, np.ndarray)) and len(x) == n
            if ok:
                try:
                    t = tuple(float(v) for v in x)
                except Exception:
                    ok, t = False, None
            if not ok:
                rec.bad_args.append(repr(type(x)) + repr(x)[:120])
                t = tuple([float("nan")] * n)
            return t

        def f(x):
            t = note(x)
            k = len(rec.evals)
            rec.calls.append(("f", t))
            e = {"x": t, "f": None, "c": None, "fault": faults.get(k), "cx": None}
            rec.evals.append(e)
            if simref is not None:
                simref.event("eval.f", ",".join(v.hex() for v in t))
            if me_.hook is not None:
                me_.hook(k, "f", t)
            fault = faults.get(k)
            if cb.get("mutate") and hasattr(x, "__setitem__"):
                x[0] = x[0] + 1000.0
                if len(x) > 1:
                    x[-1] = -7.5
                if cb["mutate"] == 2 and isinstance(x, list):
                    del x[:]
            if cb.get("noisy_print"):
                print("user output", k)
            if fault and fault.startswith("f_exc"):
                if simref is not None:
                    simref.fired("eval." + fault)
                e["f"] = "raised"
                raise EXC[fault.split(":")[1]]("simulated failure of f at call %d" % k)
            try:
                v = obj(t)
            except (OverflowError, ValueError):
                e["f"] = "raised"
                raise
            if amp:
                v = v * (1.0 + amp * h01(nseed, k)) + amp * 0.1 * h01(nseed, k, "a")
            if k < trans.get("until", 0):
                v = v + trans["amp"] * abs(h01(trans["seed"], k))
                if simref is not None:
                    simref.fired("transient noise")
            if fault == "f_nan":
                v = float("nan")
            elif fault == "f_inf":
                v = float("inf")
            elif fault == "f_ninf":
                v = float("-inf")
            elif fault == "f_big":
                v = 1e26 * (1.0 + abs(v))
            elif fault == "f_spike":
                v = v + 1e3
            if fault and fault.startswith("f_") and simref is not None:
                simref.fired("eval." + fault)
            e["f"] = v
            kind = cb.get("fret", "float")
            if kind == "np":
                return np.float64(v)
            if kind == "arr1":
                return np.array([v])
            if kind == "buf1":
                fbuf[0] = v
                return fbuf
            if kind == "arr0":
                return np.array(v)
            if kind == "int" and abs(v) < 2.0 ** 53 and v == int(v):
                return int(v)
            return v

        def c(x):
            k = len(rec.evals) - 1
            t = note(x)
            rec.calls.append(("c", t))
            if simref is not None:
                simref.event("eval.c", ",".join(v.hex() for v in t))
            if me_.hook is not None:
                me_.hook(k, "c", t)
            e = rec.evals[k] if k >= 0 else {}
            if e.get("cx") is not None:
                e["cdup"] = e.get("cdup", 0) + 1
            e["cx"] = t
            fault = faults.get(k)
            if fault and fault.startswith("c_exc"):
                if simref is not None:
                    simref.fired("eval." + fault)
                e["c"] = "raised"
                raise EXC[fault.split(":")[1]]("simulated failure of c at call %d" % k)
            vals = [g(t) for g in cons]
            if amp and both:
                vals = [v + amp * h01(nseed, k, "c", i) for i, v in enumerate(vals)]
            if fault == "c_nan":
                vals[k % len(vals)] = float("nan")
            elif fault in C_BIG:
                vals[k % len(vals)] = C_BIG[fault]
            if fault and fault.startswith("c_") and simref is not None:
                simref.fired("eval." + fault)
            e["c"] = tuple(vals)
            if cb.get("mutate") and hasattr(x, "__setitem__"):
                for j in range(len(x)):
                    x[j] = 1e6
            kind = cb.get("cret", "list")
            if kind == "arr":
                return np.array(vals)
            if kind == "col":
                return np.array(vals).reshape(-1, 1)
            if kind == "row":
                return np.array(vals).reshape(1, -1)
            if kind == "buf":
                buf[:] = vals
                return buf
            if kind == "tuple":
                return tuple(vals)
            if kind == "scalar" and len(vals) == 1:
                return vals[0]
            return list(vals)
        self.f, self.c = f, c
        self.obj, self.cons = obj, cons

    # ---- arguments in the various shapes users pass them
    def args(self):
        s, n = self.spec, self.n
        x0 = s["x0"]
        form = s.get("x0form", "row2d")
        if form == "row2d":
            X0 = np.array([x0], dtype=float)
        elif form == "col":
            X0 = np.array([x0], dtype=float).T
        elif form == "flat":
            X0 = np.array(x0, dtype=float)
        elif form == "int":
            X0 = np.array([[int(round(v)) for v in x0]])
        elif form == "tuple":
            X0 = tuple(x0)
        else:
            X0 = list(x0)
        b = s.get("bounds")
        if b is None:
            lb = ub = None
        else:
            lo = [-math.inf if v is None else v for v in b["lb"]]
            up = [math.inf if v is None else v for v in b["ub"]]
            bf = s.get("bform", "col")
            if bf == "col":
                lb, ub = np.array([[v] for v in lo], dtype=float), np.array([[v] for v in up], dtype=float)
            elif bf == "tview":
                lb, ub = np.array([lo], dtype=float).T, np.array([up], dtype=float).T
            elif bf == "flat":
                lb, ub = np.array(lo, dtype=float), np.array(up, dtype=float)
            elif bf == "row":
                lb, ub = np.array([lo], dtype=float), np.array([up], dtype=float)
            elif bf == "scalar" and n == 1:
                lb, ub = lo[0], up[0]
            elif bf == "tuple":
                lb, ub = tuple(lo), tuple(up)
            else:
                lb, ub = list(lo), list(up)
            if s.get("half") == "lb":
                ub = None
            elif s.get("half") == "ub":
                lb = None
        return X0, lb, ub

    def lbub(self):
        b = self.spec.get("bounds")
        n = self.n
        if b is None:
            return [-math.inf] * n, [math.inf] * n
        lo = [-math.inf if v is None else v for v in b["lb"]]
        up = [math.inf if v is None else v for v in b["ub"]]
        if self.spec.get("half") == "lb":
            up = [math.inf] * n
        elif self.spec.get("half") == "ub":
            lo = [-math.inf] * n
        return lo, up


class Options:
    pass


def make_options(d, form="object"):
    if d is None:
        return None
    if form == "class":
        return type("Settings", (), dict(d))
    if form == "inherited":
        return type("Settings", (type("Base", (), dict(d)),), {})()
    if form == "namespace":
        import types
        return types.SimpleNamespace(**d)
    o = Options()
    for k, v in d.items():
        setattr(o, k, v)
    return o


def show_options(o):
    """everything the user can see in his options object"""
    return None if o is None else sorted((k, repr(getattr(o, k))) for k in dir(o) if not k.startswith("__"))


class Outcome:
    """what the caller sees"""

    def __init__(self):
        self.exc = None          # (type name, message)
        self.exc_obj = None
        self.x = self.lm = self.info = None
        self.returned = False

    def flag(self):
        return None if self.info is None else int(getattr(self.info, "flag", -99))

    def canon(self):
        from .core import canon
        if self.exc is not None:
            return {"exc": self.exc[0]}
        d = {"x": canon(self.x), "lm": canon(self.lm)}
        inf = self.info
        for k in ("flag", "f", "niter", "nsimul", "ce", "ci", "glagn", "feasn", "compl", "g", "glag", "ae"):
            if hasattr(inf, k):
                d["info." + k] = canon(getattr(inf, k))
        return d


def call_optimize(bb, opts=None, args=None, catch=(Exception, KeyboardInterrupt, SystemExit)):
    """one user-level call of the library"""
    import sqpdfo
    s = bb.spec
    o = make_options(s.get("opts"), s.get("oform")) if opts is None else opts
    X0, lb, ub = bb.args() if args is None else args
    out = Outcome()
    try:
        if s.get("lim"):
            # limits for the constraint values: an inequality limited on both sides counts twice
            m = s["lim"]
            li, ui = [{"arr": np.array, "col": lambda v: np.array([v]).T, "list": list}[m["form"]](
                [(-math.inf if w is None else w) if q == "li" else (math.inf if w is None else w) for w in m[q]]) for q in ("li", "ui")]
            r = sqpdfo.optimize(o, bb.f, X0, lb, ub, bb.me, bb.mi - m["k"], bb.c, li, ui)
        elif bb.nc or s.get("pass_c"):
            r = sqpdfo.optimize(o, bb.f, X0, lb, ub, bb.me or s.get("zero", 0), bb.mi or s.get("zero", 0), bb.c)
        else:
            r = sqpdfo.optimize(o, bb.f, X0, lb, ub)
        out.returned = True
        out.x, out.lm, out.info = r
    except catch as e:
        out.exc = (type(e).__name__, str(e)[:200])
        out.exc_obj = e
        import traceback
        fr = [q for q in traceback.extract_tb(e.__traceback__) if "/sqpdfo/" in q.filename]
        out.exc_where = "%s:%s" % (fr[-1].filename.split("/")[-1], fr[-1].name) if fr else "?"
        out.exc_line = fr[-1].lineno if fr else 0
        e.__traceback__ = None
    bb.rec.closed = True
    return out


# ------------------------------------------------------------------ generation
def gen_opts(r, small=False):
    o = {}
    o["verbose"] = r.choice([0, 0, 1, 1, 2, 3])
    if r.random() < 0.85:
        o["hess_approx"] = r.choice(["model", "model", "bfgs"])
    if o.get("hess_approx") == "bfgs":
        o["bfgs_restart"] = r.choice([0, 0, 3])
    if r.random() < 0.85:
        o["whichmodel"] = r.choice(["subbasis", "subbasis", "l2norm", "regression", "frobnorm"])
    if r.random() < 0.85:
        o["final_degree"] = r.choice(["linear", "diagonal", "quadratic", "quadratic"])
    if r.random() < 0.5:
        o["tol_grad"] = r.choice([1e-2, 1e-3, 1e-4, 1e-6])
    if r.random() < 0.5:
        o["tol_feas"] = r.choice([1e-2, 1e-3, 1e-4, 1e-6])
    if r.random() < 0.2:
        o["tol_bnds"] = r.choice([1e-3, 1e-5, 1e-8])
    if r.random() < 0.1:
        o["algo_descent"] = r.choice(["powell", "wolfe", "Powell"])
    if r.random() < 0.05:
        o["dxmin"] = r.choice([1e-12, 1e-8, 1e-2])
    if small:
        o["miter"] = r.choice([2, 5, 10, 20])
        o["msimul"] = r.choice([5, 10, 20, 40])
    else:
        o["miter"] = r.choice([3, 10, 40, 100, 200])
        o["msimul"] = r.choice([1, 8, 20, 50, 100, 200])
    return o


def gen_bounds(r, n, x0, kinds=None):
    k = r.choice(kinds or ["none", "none", "inf", "box", "box", "tight", "tight", "one", "half", "near", "tiny", "fixed"])
    if k == "none":
        return None, {}
    if k == "inf":
        return {"lb": [None] * n, "ub": [None] * n}, {}
    if k == "box":
        return {"lb": [-3.0] * n, "ub": [3.0] * n}, {}
    if k == "tight":
        return {"lb": [r.uniform(-2, -.2) for _ in range(n)], "ub": [r.uniform(.2, 2) for _ in range(n)]}, {}
    if k == "one":
        lb = [r.choice([None, r.uniform(-1.5, 0)]) for _ in range(n)]
        ub = [r.choice([None, r.uniform(0.8, 2.5)]) for _ in range(n)]
        return {"lb": lb, "ub": ub}, {}
    if k == "half":
        return {"lb": [r.uniform(-1.5, -0.5) for _ in range(n)], "ub": [r.uniform(0.8, 2.5) for _ in range(n)]}, \
            {"half": r.choice(["lb", "ub"])}
    if k == "near":
        return {"lb": [v - r.choice([0.0, 0.1, 1.0]) for v in x0], "ub": [v + r.choice([2.0, 1.0, 3.0]) for v in x0]}, {}
    if k == "fixed":
        if n == 1:
            return {"lb": [x0[0] - 1.0], "ub": [x0[0] + 1.5]}, {}
        lb = [v - r.choice([0.5, 1.0, 2.0]) for v in x0]
        ub = [v + r.choice([0.5, 1.0, 2.0]) for v in x0]
        for j in r.sample(range(n), r.randint(1, max(1, n // 2))):
            lb[j] = ub[j] = r.choice([x0[j], x0[j] + 0.25, round(r.uniform(-1, 1), 2)])
        return {"lb": lb, "ub": ub}, {}
    if k == "tiny":
        return {"lb": [v - 0.01 for v in x0], "ub": [v + 0.02 for v in x0]}, {}
    raise KeyError(k)


def gen_problem(r, nmax=4, cons=None, noise=0.0, small=False, objs=None, bounds=None, big=0.05):
    n = r.choice([1, 2, 2, 3, 3, 4][:max(1, 2 * nmax - 2)]) if nmax <= 4 else r.randint(1, nmax)
    if r.random() < big:
        n = r.randint(5, 7)
    s = {"n": n}
    s["obj"] = {"kind": r.choice(objs) if objs else (r.choice(SMOOTH) if r.random() < 0.75 else r.choice(ROUGH)),
                "seed": r.randrange(10 ** 6)}
    z = r.random()
    if z < 0.05:
        s["obj"]["zero0"] = True
    elif z < 0.1:
        s["obj"]["neg"] = True
    elif z < 0.13 and not objs:
        s["obj"]["kind"] = "log"
    if cons is None:
        cons = r.choice(["none", "none", "eq", "eq", "ineq", "mix"])
    me = mi = 0
    if cons in ("eq", "mix"):
        me = r.randint(1, max(1, n - 1)) if n > 1 else r.choice([0, 1])
        if r.random() < 0.06:        # as many equations as variables, or more
            me = n + r.choice([0, 0, 1, 2])
    if cons in ("ineq", "mix"):
        mi = r.randint(1, 3)
    s["me"], s["mi"] = me, mi
    s["anchor"] = r.randrange(10 ** 6)
    con = []
    for i in range(me):
        kind = r.choice(["lin", "lin", "quad", "trig", "bilin"])
        con.append({"kind": kind, "seed": r.randrange(10 ** 6), "off": 0.0})
    for i in range(mi):
        kind = r.choice(["lin", "lin", "quad", "ball", "trig"])
        con.append({"kind": kind, "seed": r.randrange(10 ** 6), "off": r.choice([0.0, 0.3, 1.0, 1.0])})
    if con and r.random() < 0.08:     # degenerate or infeasible systems
        j = r.randrange(len(con))
        con[j] = r.choice([{"kind": "const", "seed": 0, "off": r.choice([-1.0, 0.0, 2.0])}, dict(con[0])])
    if con and r.random() < 0.05:
        con[r.randrange(len(con))] = {"kind": "wall", "seed": r.randrange(10 ** 6), "off": 0.0, "beyond": r.choice([1, -1])}
    s["con"] = con
    s["x0"] = [round(r.uniform(-2, 2), 3) for _ in range(n)]
    if r.random() < 0.1:
        s["x0"] = [float(round(v)) for v in s["x0"]]
    s["x0form"] = r.choice(["row2d", "row2d", "col", "list", "flat", "tuple"])
    b, extra = gen_bounds(r, n, s["x0"], bounds)
    if b is not None:
        s["bounds"] = b
        s["bform"] = r.choice(["col", "col", "list", "flat", "row", "tview"])
        s.update(extra)
    s["opts"] = gen_opts(r, small)
    if r.random() < 0.2:
        s["oform"] = r.choice(["class", "inherited", "namespace"])
    if noise and r.random() < noise:
        s["noise"] = {"amp": r.choice([1e-10, 1e-6, 1e-3, 0.05, 0.5]), "seed": r.randrange(10 ** 6),
                      "both": r.random() < 0.5}
    return s


def gen_cb(r):
    cb = {}
    if r.random() < 0.4:
        cb["fret"] = r.choice(["np", "int", "float", "arr0"])
    if r.random() < 0.5:
        cb["cret"] = r.choice(["arr", "col", "tuple", "scalar", "row", "buf"])
    return cb
