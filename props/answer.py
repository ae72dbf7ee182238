"""Properties of the answer as a whole: measures and report, presentation of the
problem, progress once trouble stops."""
import math
import re

from sim import core, execute, problems as P
from sim.engine import Inconclusive
from .base import (FLAGS, Prop, clone, diff, fault_index, fmt, gen_fault, log_sig, num, problem, same_run, xs)
from .single import BIG, bounds_of, c_match, f_match

OUT = ("outcome", "exc", "flag")


def fixed_of(s):
    lo, up = bounds_of(s)
    return [k for k in range(s["n"]) if lo[k] == up[k]]


def full_run(ctx, s, label="", **kw):
    """a run with the arrays of info kept as plain lists"""
    def go():
        import numpy as np
        box = {}
        real = P.call_optimize

        def call(bb, **k):
            out = real(bb, **k)
            box["out"] = out
            return out
        P.call_optimize = call
        try:
            r = execute.simulate(s, **kw)
        finally:
            P.call_optimize = real
        out = box.get("out")
        if out is not None and out.exc is None:
            i = out.info
            for k in ("g", "glag", "ae"):
                v = getattr(i, k, None)
                if v is not None:
                    v = np.asarray(v, dtype=float)
                    r[k] = v.tolist()
                    r[k + "_shape"] = list(v.shape)
        return r
    r = ctx.book(ctx.fork(go), label)
    if r.get("steplimit"):
        from sim.engine import Inconclusive
        raise Inconclusive("step limit")
    return r


MESSAGES = {0: "converged", 3: "error during function evaluation", 5: "maximum number of iterations",
            6: "maximum number of function evaluations", 15: "trust region radius too small"}


class C23(Prop):
    id = "C23"
    title = "Reported measures and printed report belong to the returned answer"
    quick_n, thorough_n = 1300, 50000
    rule = ("one random problem, noisy or with failing evaluations and small budgets, so that runs end in every way; the "
            "optimality measures, multipliers and the final report are recomputed from the returned answer; non-trivial "
            "if a point beyond the initial set was evaluated")

    def gen(self, r, i, tier):
        s = problem(r, noise=0.4)
        s["opts"]["verbose"] = r.choice([1, 1, 2, 3, 4, 0])
        f = {}
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            f[str(fault_index(r, s["n"]))] = r.choice(["f_spike", gen_fault(r, s["me"] + s["mi"])])
        if f:
            s["evalfaults"] = f
        return {"problem": s}

    def run(self, sc, ctx):
        s = sc["problem"]
        n, me, nc = s["n"], s["me"], s["me"] + s["mi"]
        r = full_run(ctx, s)
        if r["exc"] or r["flag"] in (1, 2):
            return
        ctx.hit("flag %s" % r["flag"])
        started = len(r["evals"]) > n + 1
        if started:
            log_sig(ctx, r)
        self.report(ctx, s, r)
        if r["flag"] == 3 and r.get("feasn") is None:
            return
        if r["flag"] == 3 and not started:
            return
        # infeasibility: never understated
        if nc:
            c = r["ce"]
            if len(c) < nc or any(abs(v) >= BIG for v in c):
                return
            viol = max([abs(v) for v in c[:me]] + [max(0.0, -v) for v in c[me:nc]])
            ctx.check(r["feasn"] >= viol * (1 - 1e-9) - 1e-300, "feasibility",
                      "reported infeasibility %.9g, the returned constraint values have %.9g (flag %s)" % (r["feasn"], viol, r["flag"]))
            if not s["mi"]:
                ctx.check(abs(r["feasn"] - viol) <= 1e-9 * (1 + viol), "feasibility",
                          "reported infeasibility %.9g, the returned constraint values have %.9g (flag %s)" % (r["feasn"], viol, r["flag"]))
        if r["flag"] not in (0, 5, 6, 15):
            return
        glag = flat(r.get("glag"))
        if not glag:
            return
        ctx.check(r["glagn"] == max(abs(v) for v in glag), "norm",
                  "reported gradient norm %.9g, gradient %s (flag %s)" % (r["glagn"], glag, r["flag"]))
        if fixed_of(s):
            return
        g, lm = flat(r.get("g")), r["lm"]
        ae = r.get("ae") or []
        if len(g) != n or len(lm) != n + nc or len(glag) != n or (nc and r["ae_shape"] != [nc, n]):
            ctx.bad("shape", "gradient %d, multipliers %d, jacobian %s for %d variables and %d constraints (flag %s)"
                    % (len(g), len(lm), r.get("ae_shape"), n, nc, r["flag"]))
        for k in range(n):
            t = [g[k], lm[k]] + [ae[j][k] * lm[n + j] for j in range(nc)]
            ctx.check(abs(sum(t) - glag[k]) <= 1e-9 * (1e-6 + sum(abs(v) for v in t)), "stationarity",
                      "component %d of the reported gradient is %.12g, but gradient, multipliers and jacobian give %.12g "
                      "(flag %s)" % (k, glag[k], sum(t), r["flag"]))
        ctx.hit("measures recomputed")

    def report(self, ctx, s, r):
        v = s["opts"].get("verbose", 1)
        if v < 1:
            return
        t = r["stdout"]
        m = re.findall(r"Exit code (-?\d+): ([^\n]*)\n", t)
        if not m:
            ctx.check(r["flag"] == 3 and len(r["evals"]) <= s["n"] + 1, "report", "no final report (flag %s)" % r["flag"])
            return
        ctx.check(len(m) == 1, "report", "%d final reports" % len(m))
        ctx.check(int(m[0][0]) == r["flag"], "report", "report says exit code %s, flag is %s" % (m[0][0], r["flag"]))
        if r["flag"] in MESSAGES:
            ctx.check(m[0][1].strip() == MESSAGES[r["flag"]], "report", "flag %s is explained as %r" % (r["flag"], m[0][1]))

        def grab(pat):
            q = re.findall(pat + r"\s+([-+0-9.eEinfa]+)\s*\n", t)
            return float(q[-1]) if q else None
        for pat, val, digits in [("Final function value", r["f"], 5), ("nbr of iterations", r["niter"], None),
                                 ("nbr of function evaluations", r["nsimul"], None),
                                 (r"radient of the [^\n]*\(inf norm\)", r["glagn"], 5),
                                 (r"\. feasibility", r["feasn"], 5)]:
            a = grab(pat)
            if a is None or val is None:
                continue
            if math.isnan(a) and math.isnan(val):
                continue
            ok = a == float("%.5e" % val) if digits else a == val
            ctx.check(ok, "report", "report says %s %r, result has %r (flag %s)" % (pat, a, val, r["flag"]))
            ctx.hit("figures of the report compared")


def flat(v):
    if v is None:
        return []
    if isinstance(v, list):
        return [q for w in v for q in (flat(w) if isinstance(w, list) else [w])]
    return [v]


DEFAULTS = {"verbose": 1, "miter": 1000, "msimul": 1000, "tol_grad": 1e-5, "tol_feas": 1e-5, "tol_bnds": 1e-5,
            "hess_approx": "model", "bfgs_restart": 0, "whichmodel": "subbasis", "final_degree": "diagonal"}


def respell(r, v):
    v = "".join(ch.upper() if r.random() < 0.5 else ch.lower() for ch in v)
    k = r.randint(0, len(v))
    return r.choice([v, " " + v, v + "  ", v[:k] + " " + v[k:]])


def gen_limits(r, s):
    """limits on the constraint values that say the same as c(x) >= 0 with all values listed"""
    me, mi = s["me"], s["mi"]
    k = 0 if mi < 2 else r.choice([0, 1, 1, mi // 2])
    two = set(r.sample(range(mi - k), k))
    li, ui = [0.0] * me, [0.0] * me
    for i in range(mi - k):
        if i in two:
            a = r.choice([0.0, -1.0, 2.5, -9e6])
            li.append(a)
            ui.append(a + r.choice([1e-3, 1.0, 4.0]))
        else:
            a, b = r.choice([[0.0, None], [None, 0.0], [-2.0, 1e20], [-1e20, 3.0], [None, None], [-1e9, 1e9], [1.0, 1e7], [-1e7, 5.0]])
            li.append(a)
            ui.append(b)
    return {"k": k, "li": li, "ui": ui, "form": r.choice(["arr", "col", "list"])}


class C24(Prop):
    id = "C24"
    title = "How a problem is written down does not change the run"
    quick_n, thorough_n = 450, 24000
    rule = ("one problem (noise, failing evaluations) and two or three other ways to write it: starting point as row, column, "
            "flat array, list or integers; bounds as lists, columns or absent instead of infinite; option strings in other "
            "case and spacing; defaults spelled out or left away; fixed variables put into the functions; non-trivial always")

    def gen(self, r, i, tier):
        s = problem(r, noise=0.3, small=r.random() < 0.4)
        s["opts"]["verbose"] = 0
        if r.random() < 0.3:
            s["evalfaults"] = {str(fault_index(r, s["n"], 25)): gen_fault(r, s["me"] + s["mi"])}
        s["x0form"] = "row2d"
        s.pop("oform", None)
        if s.get("bounds"):
            s["bform"] = "col"
        ws = []
        for _ in range(3):
            k = r.choice(["x0form", "bform", "strings", "strings", "defaults", "defaults", "noopts", "infbounds", "repaired",
                          "oform", "limits", "nothing"])
            if fixed_of(s) and r.random() < 0.5:
                k = "substitute"
            if k == "x0form":
                w = [k, r.choice(["col", "flat", "list", "tuple"])]
            elif k == "bform":
                if not s.get("bounds"):
                    continue
                w = [k, r.choice(["list", "tview", "tuple", "flat", "row"] + (["scalar"] if s["n"] == 1 else []))]
            elif k == "strings":
                o = {q: respell(r, v) for q, v in s["opts"].items() if isinstance(v, str)}
                if not o:
                    continue
                w = [k, o]
            elif k == "defaults":
                w = [k, r.sample(sorted(DEFAULTS), r.randint(1, 5))]
            elif k == "infbounds":
                if s.get("bounds"):
                    continue
                w = [k, r.choice(["lb", "ub", "both"])]
            elif k == "oform":
                w = [k, r.choice(["class", "class", "inherited", "namespace"])]
            elif k == "limits":
                if not s["mi"]:
                    continue
                w = [k, gen_limits(r, s)]
            elif k == "nothing":
                if s["me"] and s["mi"]:
                    continue
                w = [k, r.choice([None, 0])]
            elif k == "repaired":
                w = [k, r.choice([["tol_grad", 0], ["tol_feas", 0], ["tol_bnds", 0.0], ["verbose", 7], ["verbose", -1],
                                  ["fout", 1], ["fout", -1]])]
            else:
                w = [k, 0]
            ws.append(w)
        return {"problem": s, "ops": ws}

    def run(self, sc, ctx):
        s = sc["problem"]
        ref = ctx.run(s, "reference")
        log_sig(ctx, ref, sc["ops"])
        for k, w in sc["ops"]:
            base, q = s, clone(s)
            what = "%s %s: " % (k, w)
            if k in ("x0form", "bform", "oform"):
                q[k] = w
            elif k == "limits":
                q["lim"] = w
            elif k == "nothing":
                q["zero"] = w
                q["pass_c"] = True
            elif k == "strings":
                q["opts"] = dict(q["opts"], **w)
            elif k == "defaults":
                a, b = dict(s["opts"]), dict(s["opts"])
                for o in w:
                    a[o] = DEFAULTS[o]
                    b.pop(o, None)
                base, q = clone(s, opts=a), clone(s, opts=b)
            elif k == "repaired":
                a = dict(s["opts"], **{w[0]: w[1]})
                b = dict(s["opts"])
                b.pop(w[0], None)
                base, q = clone(s, opts=a), clone(s, opts=b)
            elif k == "noopts":
                base, q = clone(s, opts={}), clone(s, opts=None)
                q["opts"] = None
            elif k == "infbounds":
                q["bounds"] = {"lb": [None] * s["n"], "ub": [None] * s["n"]}
                if w != "both":
                    q["half"] = w
            elif k == "substitute":
                self.substitute(ctx, s, ref)
                continue
            a = ref if base is s else ctx.run(base, k + " base")
            b = ctx.run(q, k)
            if k == "infbounds":
                # finite defaults stand for missing bounds: points and values agree
                same_run(ctx, a, b, k, what, ("x", "f", "flag", "ce", "exc"))
            else:
                same_run(ctx, a, b, k, what, OUT)
            ctx.hit(k)

    def substitute(self, ctx, s, ref):
        fx = fixed_of(s)
        n = s["n"]
        free = [k for k in range(n) if k not in fx]
        if not free or ref["flag"] in (1, 2):
            return
        lo, up = bounds_of(s)

        def go():
            sim = core.Sim(step_limit=execute.STEP_LIMIT)
            bb = P.BlackBox(clone(s, cb=None), sim)

            def put(x):
                y = [lo[k] for k in range(n)]
                for v, k in zip(x, free):
                    y[k] = float(v)
                return y
            b2 = P.BlackBox(clone(s, cb=None), sim)
            b2.f, b2.c = (lambda x: bb.f(put(x))), (lambda x: bb.c(put(x)))
            b2.rec = bb.rec
            X0 = __import__("numpy").array([[s["x0"][k] for k in free]])
            args = (X0, [lo[k] for k in free], [up[k] for k in free])
            try:
                with sim:
                    out = P.call_optimize(b2, args=args)
            except core.StepLimit:
                return {"steplimit": "x", "evals": []}
            r = execute.observe(out, bb, sim)
            r.update(execute.sim_part(sim))
            if r.get("x") is not None and len(r["x"]) == len(free):
                r["x"] = put(r["x"])
            return r
        b = ctx.book(ctx.fork(go), "substitute")
        if b.get("steplimit"):
            return
        same_run(ctx, ref, b, "substitute", "fixed variables %s put into the functions" % fx, ("flag", "exc"))
        if ref["flag"] != 3 or len(ref["evals"]) > len(free) + 1:
            same_run(ctx, ref, b, "substitute", "fixed variables %s put into the functions" % fx, ("x", "f", "ce"))
        ctx.hit("substitute")


class C22(Prop):
    id = "C22"
    title = "Once trouble stops, convex problems are solved in bounded time"
    quick_n, thorough_n = 900, 24000
    rule = ("one random strictly convex quadratic (1 to 4, sometimes up to 7 variables): unconstrained or inside wide bounds, with "
            "up to four outliers among the first evaluations; or with bounds, linear equations, both or BFGS Hessians and no outlier; "
            "random other options, file and terminal trouble; non-trivial always")
    # evaluations within which a run must be over (several times the largest number seen in 10^4 runs)
    BOUND = {"outliers": 400, "bounds": 300, "equations": 250, "both": 250, "bfgs": 500}

    def gen(self, r, i, tier):
        fam = r.choice(["outliers", "outliers", "bounds", "bounds", "equations", "both", "both", "bfgs"])
        s = P.gen_problem(r, objs=["sphere", "quad"], cons="eq" if fam in ("equations", "both") else "none",
                          bounds=["tight", "tight", "box", "one", "half", "near", "inf"] if fam == "bounds" else ["none", "box", "inf"])
        s["me"] = min(s["me"], s["n"] - 1)
        s["con"] = [dict(c, kind="lin", off=0.0) for c in s["con"][:s["me"]]]
        if fam == "equations" and r.random() < 0.7:
            s.pop("bounds", None)
        if fam == "both":     # independent equations, a point that satisfies all of them inside the bounds
            for j, c in enumerate(s["con"]):
                c["seed"] = 1000 * (c["seed"] // 1000) + 17 * j
            xf = P.anchor(s["anchor"], s["n"])
            s["bounds"] = {"lb": [v - r.uniform(.1, 2) for v in xf], "ub": [v + r.uniform(.1, 2) for v in xf]}
            s.pop("half", None)
        s["opts"] = {"verbose": r.choice([0, 1]), "hess_approx": "bfgs" if fam == "bfgs" else "model",
                     "whichmodel": r.choice(["subbasis", "l2norm", "frobnorm"]),
                     "final_degree": "quadratic", "miter": 600, "msimul": 600}
        if fam == "bfgs":
            s["opts"]["bfgs_restart"] = 0
            if s["n"] > 4:
                s["opts"]["hess_approx"] = "model"
        f = {}
        for _ in range(r.choice([0, 1, 2, 4])):
            f[str(r.randint(0, 25))] = "f_spike"
        if f and fam == "outliers":
            s["evalfaults"] = f
        sc = {"problem": s, "family": fam}
        if r.random() < 0.3:
            from .world import gen_fs_plan
            sc["fs"] = gen_fs_plan(r)
        return sc

    def stationarity(self, s, x):
        """distance of the true gradient from the cone a minimiser needs"""
        import numpy as np
        n = s["n"]
        p = P.Params(s["obj"]["seed"], n)
        d = np.array(x) - np.array(p.xs)
        if s["obj"]["kind"] == "sphere":
            g = 2 * d
        else:
            A = np.array(p.A)
            g = 2 * A.T @ (A @ d) + 0.4 * np.array(p.w) * d
        cons = P.BlackBox(s).cons
        lo, up = bounds_of(s)
        if cons:
            rows = np.array([[c(list(x[:j]) + [x[j] + 1.0] + list(x[j + 1:])) - c(x) for j in range(n)] for c in cons])
            cone = [rows.T, -rows.T] + [np.eye(n)[:, [j]] for j in range(n) if x[j] - lo[j] < 1e-4] \
                + [-np.eye(n)[:, [j]] for j in range(n) if up[j] - x[j] < 1e-4]
            from scipy.optimize import nnls
            cone = np.hstack(cone)
            return float(max(abs(g - cone @ nnls(cone, g)[0])))
        return float(max(abs(min(max(x[j] - g[j], lo[j]), up[j]) - x[j]) for j in range(n)))

    def run(self, sc, ctx):
        s, fam = sc["problem"], sc["family"]
        if min(s["opts"].get("miter", 0), s["opts"].get("msimul", 0)) < 600:      # a minimised scenario must not lose its budget
            raise Inconclusive("no budget to solve it")
        r = ctx.run(s, fs_plan=sc.get("fs"))
        ctx.hit("%s: flag %s" % (fam, r["flag"]))
        log_sig(ctx, r)
        if r["exc"]:
            ctx.bad("raised", "raised %s: %s" % r["exc"])
        last = max([int(k) for k in (s.get("evalfaults") or {})] + [0])
        # outliers next to the solution may leave a run at the solution without a model that proves it
        given_up = fam == "outliers" and r["flag"] == 15 and self.stationarity(s, r["x"]) <= self.TOL
        ctx.check(r["flag"] == 0 or given_up, "stuck", "a convex quadratic of %d variables (%s) was not solved: flag %s after %d evaluations, the "
                  "last outlier at evaluation %d" % (s["n"], fam, r["flag"], len(r["evals"]), last))
        ctx.check(len(r["evals"]) <= self.BOUND[fam], "slow", "%d evaluations" % len(r["evals"]))
        g = self.stationarity(s, r["x"])
        # minimum l2-norm models of small sets have gradients that are off by a factor
        tol = self.TOL if s["opts"]["whichmodel"] != "l2norm" else 0.5
        ctx.check(g <= tol, "unsolved", "declared solved (%s), but the true projected gradient at the answer is %.3g" % (fam, g))

    TOL = 1e-3


class C26(C23):
    id = "C26"
    title = "The multipliers returned are the best ones for the derivatives returned"
    quick_n, thorough_n = 3000, 60000
    rule = ("one random problem with or without bounds and equations, noisy or with outliers, failing evaluations and small "
            "budgets; the multipliers are compared with an independent least-squares solution; non-trivial if there was "
            "anything to choose (an equation or an active bound)")

    def gen(self, r, i, tier):
        s = problem(r, noise=0.4, cons=r.choice(["none", "eq", "eq"]), bounds=r.choice([None, ["tight", "near", "box", "one"]]))
        s["opts"]["verbose"] = r.choice([1, 0])
        f = {}
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            f[str(fault_index(r, s["n"]))] = r.choice(["f_spike", gen_fault(r, s["me"])])
        if f:
            s["evalfaults"] = f
        return {"problem": s}

    def run(self, sc, ctx):
        import numpy as np
        from scipy.optimize import nnls
        s = sc["problem"]
        n, me = s["n"], s["me"]
        if s["mi"]:
            raise Inconclusive("inequalities have slacks the caller does not see")
        r = full_run(ctx, s)
        if r["exc"] or r["flag"] not in (0, 5, 6, 15) or fixed_of(s):
            return
        ctx.hit("flag %s" % r["flag"])
        g, lm = np.array(flat(r.get("g"))), np.array(r["lm"])
        A = np.array(r.get("ae") or []).reshape(me, n)
        lo, up = bounds_of(s)
        x = r["x"]
        cols = [A.T, -A.T]
        active = False
        for j in range(n):
            al, au = abs(x[j] - lo[j]) < 1.001e-5, abs(x[j] - up[j]) < 1.001e-5
            active = active or al or au
            ctx.check(lm[j] <= 0 or au, "sign", "multiplier %d is %.6g, but the upper bound is not active (flag %s)" % (j, lm[j], r["flag"]))
            ctx.check(lm[j] >= 0 or al, "sign", "multiplier %d is %.6g, but the lower bound is not active (flag %s)" % (j, lm[j], r["flag"]))
            # a bound within the tolerance may or may not count as active
            if abs(x[j] - lo[j]) < 0.999e-5:
                cols.append(-np.eye(n)[:, [j]])
            if abs(x[j] - up[j]) < 0.999e-5:
                cols.append(np.eye(n)[:, [j]])
        if not (me or active):
            return
        got = float(np.linalg.norm(g + lm[:n] + A.T @ lm[n:]))
        B = np.hstack(cols)
        size = float(np.linalg.norm(g))
        if not (np.isfinite(B).all() and np.isfinite(size)):
            return
        if me:
            act = [j for j in range(n) if abs(x[j] - lo[j]) < 1.001e-5 or abs(x[j] - up[j]) < 1.001e-5]
            for B2 in (A, np.vstack([A, np.eye(n)[act]])):
                sv = np.linalg.svd(B2, compute_uv=False)
                if len(sv) < len(B2) or sv[-1] <= 1e-2 * max(sv[0], 1.0):
                    ctx.hit("nearly dependent")
                    return
        best = nnls(B, -g)[1] if B.shape[1] else size
        ctx.check(got <= best * (1 + 1e-3) + 1e-5 * (size + float(np.max(np.abs(A).T @ np.abs(lm[n:]), initial=0.0))) + 1e-7, "not best",
                  "the gradient of the Lagrangian has norm %.9g with the returned multipliers, %.9g with others of the same signs (flag %s)"
                  % (got, best, r["flag"]))
        ctx.hit("multipliers judged")
        if best > 1e-6 * size:
            ctx.hit("multipliers judged away from a solution")
        log_sig(ctx, r)


ALL = [C22, C23, C24, C26]
