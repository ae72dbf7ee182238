"""Properties decided on single runs under evaluation faults and noise."""
import math

from sim import problems as P
from .base import (ERR, FLAGS, Prop, clone, fault_index, fmt, gen_fault, log_sig, num, ok_eval, problem, same_run, xs)


def plan_faults(r, s, p=0.5, hi=40, **kw):
    if r.random() < p:
        s["evalfaults"] = {str(fault_index(r, s["n"], hi)): gen_fault(r, s["me"] + s["mi"], **kw)}
    return s


def first_bad(r, nc):
    for k, e in enumerate(r["evals"]):
        if not ok_eval(e, nc):
            return k
    return None


class C01(Prop):
    id = "C01"
    title = "Every accepted run ends, never raises, and says why"
    quick_n, thorough_n = 1600, 60000
    rule = ("one random problem (size, objective, constraints, bounds, options, callback return types), with noise and "
            "one or several failing evaluations (exceptions, nan, +-inf, huge values, spikes); non-trivial if at least "
            "one point beyond the initial set was evaluated or a fault fired")

    def gen(self, r, i, tier):
        s = problem(r, noise=0.35, nmax=4 if r.random() < 0.8 else 7)
        s["opts"]["verbose"] = r.choice([0, 1, 1, 2, 3, 3, 4, 5, 6])
        if r.random() < 0.05:
            s["opts"] = None if r.random() < 0.3 else {"verbose": 1}
        if r.random() < 0.15:    # constraint values without a usable size, once the run is on its way
            s = problem(r, nmax=3, cons=r.choice(["eq", "eq", "mix", "ineq"]), big=0)
            s["evalfaults"] = {str(s["n"] + 1 + r.randint(0, 12)): r.choice(list(P.C_BIG)) for _ in range(r.choice([1, 1, 3]))}
            return {"problem": s}
        f = {}
        for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
            kind = r.choice(["x", "x", "f_big", "f_spike", r.choice(list(P.C_BIG))])
            if kind == "x":
                kind = gen_fault(r, s["me"] + s["mi"])
            if kind in P.C_BIG and not (s["me"] + s["mi"]):
                kind = "f_big"
            f[str(fault_index(r, s["n"]))] = kind
        if f:
            s["evalfaults"] = f
        return {"problem": s}

    def run(self, sc, ctx):
        s = sc["problem"]
        r = ctx.try_run(s)
        if r.get("steplimit"):
            ctx.bad("no-end", "the run did not end within the simulated step budget (%s) after %d evaluations"
                    % (r["steplimit"], len(r["evals"])))
        if r["exc"]:
            ctx.bad("raised", "optimize raised %s: %s (in %s)" % (r["exc"][0], r["exc"][1], r["exc_where"]))
        n = s["n"]
        ctx.check(r["flag"] in FLAGS, "flag", "undocumented exit flag %s" % r["flag"])
        ctx.check(r["x"] is not None and len(r["x"]) == n, "shape", "x has shape %s for %d variables" % (r["xshape"], n))
        ctx.check(all(math.isfinite(v) for v in r["x"]), "nonfinite-x", "x = %s" % r["x"])
        if r["flag"] != 3:
            ctx.check(r["f"] is not None and math.isfinite(r["f"]), "nonfinite-f", "flag %s with f = %s" % (r["flag"], r["f"]))
            ctx.check(all(math.isfinite(v) for v in r["lm"]), "nonfinite-lm", "flag %s with multipliers %s" % (r["flag"], r["lm"]))
        ctx.hit("flag %s" % r["flag"])
        if len(r["evals"]) > n + 1 or r["faults"]:
            log_sig(ctx, r)


class C02(Prop):
    id = "C02"
    title = "Exact account of what the black box was asked"
    quick_n, thorough_n = 1600, 60000
    rule = ("one random problem with noise and up to two failing evaluations; non-trivial if a point beyond the initial "
            "set was evaluated or a fault fired")

    def gen(self, r, i, tier):
        s = problem(r, noise=0.3)
        plan_faults(r, s, 0.5)
        s["opts"]["msimul"] = r.choice([1, 3, 6, 10, 15, 25, 40, 80])
        return {"problem": s}

    def run(self, sc, ctx):
        s = sc["problem"]
        n, nc = s["n"], s["me"] + s["mi"]
        r = ctx.run(s)
        if r["bad_args"]:
            ctx.bad("argument", "the black box was called with something that is no point of %d numbers: %s" % (n, r["bad_args"][0]))
        for k, e in enumerate(r["evals"]):
            ctx.check(all(math.isfinite(v) for v in e["x"]), "argument", "evaluation %d at %s" % (k, e["x"]))
            if nc:
                if num(e["f"]):
                    ctx.check(e["cx"] is not None, "pairing", "constraints were not asked for at evaluation %d" % k)
                if e["cx"] is not None:
                    ctx.check(e["cx"] == e["x"], "pairing", "evaluation %d: objective at %s, constraints at %s" % (k, fmt(e["x"]), fmt(e["cx"])))
                ctx.check(not e.get("cdup"), "pairing", "constraints asked for more than once at evaluation %d" % k)
            else:
                ctx.check(e["cx"] is None, "pairing", "constraints asked for although there are none")
        ctx.check(r["calls"][:1] == [] or r["calls"][0][0] == "f", "pairing", "first call was to the constraints")
        if r["exc"] is None:
            ctx.check(r["nsimul"] == len(r["evals"]), "count", "reported %s evaluations, made %d (flag %s)" % (r["nsimul"], len(r["evals"]), r["flag"]))
            ctx.check(r["after_close"] == 0, "after-return", "%d calls after optimize returned" % r["after_close"])
        if len(r["evals"]) > n + 1 or r["faults"]:
            log_sig(ctx, r)
        ctx.hit("flag %s" % r["flag"])


BIG = 1e25


def f_match(v, e):
    return num(e["f"]) and (v == e["f"] or (e["f"] > BIG and v >= BIG * 0.999))


def c_match(cs, e, nc):
    c = e.get("c")
    if not isinstance(c, tuple) or len(cs) < nc:
        return False
    for a, b in zip(cs, c):
        if abs(b) >= BIG:
            if not (a * b > 0 and abs(a) >= 1.0):
                return False
        elif a != b:
            return False
    return True


class C03(Prop):
    id = "C03"
    title = "The answer is one real evaluation of the black box"
    quick_n, thorough_n = 1600, 60000
    rule = ("one random problem, often with noise (so that values at the same point differ), infinite constraint values, "
            "huge objective values and failing evaluations; non-trivial if a point beyond the initial set was evaluated")

    def gen(self, r, i, tier):
        s = problem(r, noise=0.5)
        nc = s["me"] + s["mi"]
        f = {}
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            k = r.choice(["exc", "f_big", "f_spike", "f_spike", r.choice(list(P.C_BIG))])
            if k == "exc":
                k = gen_fault(r, nc)
            if k in P.C_BIG and not nc:
                k = "f_spike"
            f[str(fault_index(r, s["n"]))] = k
        if f:
            s["evalfaults"] = f
        return {"problem": s}

    def run(self, sc, ctx):
        s = sc["problem"]
        n, nc = s["n"], s["me"] + s["mi"]
        r = ctx.run(s)
        if r["exc"]:
            return
        ev = r["evals"]
        k = first_bad(r, nc)
        if r["flag"] == 3 and (k is not None and k <= n):
            # the start itself could not be evaluated: nothing to answer with
            return
        if r["flag"] in (1, 2):
            return
        x = tuple(r["x"])
        at = [e for e in ev if e["x"] == x]
        ctx.check(at, "point", "returned x = %s was never evaluated (flag %s)" % (fmt(x), r["flag"]))
        withf = [e for e in at if f_match(r["f"], e)]
        ctx.check(withf, "value", "returned f = %r, but the black box answered %s at x = %s (flag %s)"
                  % (r["f"], [e["f"] for e in at], fmt(x), r["flag"]))
        if nc:
            cs = (r["ce"] or [])
            ctx.check(any(c_match(cs, e, nc) for e in withf), "constraints",
                      "returned constraint values %s, but the black box answered %s with f = %r (flag %s)"
                      % (cs, [e.get("c") for e in withf], r["f"], r["flag"]))
        if len(ev) > n + 1:
            log_sig(ctx, r)
        ctx.hit("flag %s" % r["flag"])
        if len(at) > 1:
            ctx.hit("several evaluations at the returned point")
        if s.get("noise"):
            ctx.hit("noisy black box")


class C04(Prop):
    id = "C04"
    title = "A failing evaluation stops the run cleanly at the point reached"
    quick_n, thorough_n = 700, 30000
    rule = ("a fault-free reference run, then runs of the same problem with one evaluation failing (every fault kind, at "
            "start-up, in the first steps, at the last evaluation, anywhere); non-trivial if the fault fired")

    def gen(self, r, i, tier):
        s = problem(r, noise=0.3)
        s["opts"]["msimul"] = r.choice([10, 20, 40, 80])
        s["opts"]["verbose"] = r.choice([0, 1, 2, 3, 4])
        pts = []
        for _ in range(3):
            pts.append({"u": round(r.random(), 4), "where": r.choice(["start", "early", "any", "any", "last"]),
                        "kind": gen_fault(r, s["me"] + s["mi"])})
        return {"problem": s, "points": pts}

    def run(self, sc, ctx):
        s = sc["problem"]
        n, nc = s["n"], s["me"] + s["mi"]
        ref = ctx.run(s, "reference")
        if ref["exc"] or ref["flag"] in (1, 2) or first_bad(ref, nc) is not None:
            return
        N = len(ref["evals"])
        for p in sc["points"]:
            u = p["u"]
            k = {"start": int(u * (n + 1)), "early": n + 1 + int(u * 5), "last": N - 1}.get(p["where"], int(u * N))
            if k >= N:
                k = N - 1
            r = ctx.run(clone(s, evalfaults={str(k): p["kind"]}), "fault at evaluation %d" % k)
            what = "%s at evaluation %d of %d: " % (p["kind"], k, N)
            if r["exc"]:
                ctx.bad("raised", what + "optimize raised %s: %s" % r["exc"])
            for j in range(min(k + 1, len(r["evals"]))):
                if xs(r)[j] != xs(ref)[j]:
                    ctx.bad("foresight", what + "evaluation %d changed" % j)
            ctx.check(len(r["evals"]) == k + 1, "continued", what + "%d further evaluations" % (len(r["evals"]) - k - 1))
            ctx.check(r["flag"] == 3, "flag", what + "flag %s, not 3" % r["flag"])
            ctx.check(len(r["x"]) == n and all(math.isfinite(v) for v in r["x"]), "x", what + "x = %s" % r["x"])
            log_sig(ctx, r)
            if k <= n:
                ctx.hit("failed during start-up")
                continue
            ctx.hit("failed after start-up")
            x = tuple(r["x"])
            good = [e for j, e in enumerate(r["evals"]) if j != k and e["x"] == x]
            ctx.check(good, "x", what + "returned x = %s is not a point evaluated successfully" % fmt(x))
            ctx.check(any(f_match(r["f"], e) for e in good), "f", what + "returned f = %r, black box answered %s there"
                      % (r["f"], [e["f"] for e in good]))
            if nc:
                ctx.check(any(f_match(r["f"], e) and c_match(r["ce"] or [], e, nc) for e in good), "c",
                          what + "returned constraint values %s" % r["ce"])
            else:
                # what was gained before the failure is kept
                ctx.check(r["f"] <= ref["evals"][0]["f"], "lost", what + "returned f = %r, worse than the start %r"
                          % (r["f"], ref["evals"][0]["f"]))


class C05(Prop):
    id = "C05"
    title = "Success is only claimed where the tolerances hold"
    quick_n, thorough_n = 1200, 80000
    rule = ("one random problem (feasible, infeasible, degenerate, noisy) with random tolerances and generous budgets; "
            "non-trivial if the run claimed success (flag 0)")

    def gen(self, r, i, tier):
        s = problem(r, noise=0.25, objs=P.SMOOTH if r.random() < 0.8 else None)
        s["opts"]["miter"], s["opts"]["msimul"] = r.choice([100, 200]), r.choice([100, 200, 300])
        if r.random() < 0.3:
            s["opts"]["tol_feas"] = r.choice([1e-1, 1e-2, 1e-3, 1e-4, 1e-6])
            s["opts"]["tol_grad"] = r.choice([10.0, 1.0, 1e-1, 1e-2, 1e-5])
        if s["con"] and r.random() < 0.15:   # not feasible anywhere
            s["con"][r.randrange(len(s["con"]))] = {"kind": "const", "seed": 0, "off": r.choice([-1.0, -0.2, -0.01])}
        return {"problem": s}

    def run(self, sc, ctx):
        s = sc["problem"]
        nc = s["me"] + s["mi"]
        r = ctx.run(s)
        ctx.hit("flag %s" % r["flag"])
        if r["exc"] or r["flag"] != 0:
            return
        log_sig(ctx, r)
        tf, tg = s["opts"].get("tol_feas", 1e-5), s["opts"].get("tol_grad", 1e-5)
        x = tuple(r["x"])
        at = [e for e in r["evals"] if e["x"] == x and f_match(r["f"], e)]
        ctx.check(at, "point", "success claimed at x = %s, which was not evaluated with f = %r" % (fmt(x), r["f"]))
        viol = 0.0
        if nc:
            viol = min(max([abs(v) for v in e["c"][:s["me"]]] + [max(0.0, -v) for v in e["c"][s["me"]:]]) for e in at)
            ctx.check(viol <= 100 * tf * 1.000001, "infeasible", "success claimed with tol_feas %g, but the constraints are "
                      "violated by %g at x" % (tf, viol))
            ctx.check(viol <= r["feasn"] * 1.000001 + 1e-12, "feasn", "reported infeasibility %g, but the constraints are "
                      "violated by %g at x" % (r["feasn"], viol))
        ctx.check(r["glagn"] <= 100 * tg * 1.000001, "glagn", "success claimed with tol_grad %g but reported gradient %g" % (tg, r["glagn"]))
        lo, up = bounds_of(s)
        for v, l, u in zip(x, lo, up):
            ctx.check(l - 1e-6 <= v <= u + 1e-6, "bounds", "success claimed outside the bounds")
        if viol > 0:
            ctx.hit("claimed with a violation > 0")
        if s.get("noise"):
            ctx.hit("noisy")


def bounds_of(s):
    return P.BlackBox(s).lbub()


class C06(Prop):
    id = "C06"
    title = "The answer respects the bounds, however the run ends"
    quick_n, thorough_n = 1600, 60000
    rule = ("one random bounded problem (boxes, one-sided, tight, fixed variables, starts on or outside the bounds) "
            "with noise and failing evaluations; non-trivial if the returned point touches a bound or the start was outside")

    def gen(self, r, i, tier):
        s = problem(r, noise=0.3, bounds=["box", "tight", "tight", "one", "half", "near", "near", "tiny", "fixed"])
        if r.random() < 0.35:
            s["x0"] = [round(v * 3, 3) for v in s["x0"]]
        if r.random() < 0.3:      # start on a bound
            b = s["bounds"]
            for k in range(s["n"]):
                v = r.choice([b["lb"][k], b["ub"][k]])
                if v is not None and r.random() < 0.5:
                    s["x0"][k] = v
        plan_faults(r, s, 0.4)
        return {"problem": s}

    def run(self, sc, ctx):
        s = sc["problem"]
        r = ctx.run(s)
        if r["exc"] or r["flag"] in (1, 2):
            return
        lo, up = bounds_of(s)
        x = r["x"]
        for k, (v, l, u) in enumerate(zip(x, lo, up)):
            tol = 1e-7 * max(1.0, abs(l) if math.isfinite(l) else 1.0, abs(u) if math.isfinite(u) else 1.0)
            ctx.check(l - tol <= v <= u + tol, "bounds", "x[%d] = %.17g is outside [%g, %g] (flag %s)" % (k, v, l, u, r["flag"]))
            if l == u:
                ctx.hit("fixed variable")
                for j, e in enumerate(r["evals"]):
                    ctx.check(abs(e["x"][k] - l) <= tol, "fixed", "variable %d is fixed to %g, but evaluation %d has %.17g" % (k, l, j, e["x"][k]))
        # the points of the first interpolation set: the start and one further point per free variable
        for j, e in enumerate(r["evals"][:1 + sum(l < u for l, u in zip(lo, up))]):
            for k, (v, l, u) in enumerate(zip(e["x"], lo, up)):
                tol = 1e-7 * max(1.0, abs(l) if math.isfinite(l) else 1.0, abs(u) if math.isfinite(u) else 1.0)
                ctx.check(l - tol <= v <= u + tol, "start", "evaluation %d is outside the bounds: x[%d] = %.17g, [%g, %g]" % (j, k, v, l, u))
        act = any(abs(v - l) < 1e-6 or abs(v - u) < 1e-6 for v, l, u in zip(x, lo, up))
        out = any(not l <= v <= u for v, l, u in zip(s["x0"], lo, up))
        if act:
            ctx.hit("bound active at the answer")
        if out:
            ctx.hit("start outside")
        if act or out:
            log_sig(ctx, r)
        ctx.hit("flag %s" % r["flag"])


class C07(Prop):
    id = "C07"
    title = "Without constraints, progress is never lost"
    quick_n, thorough_n = 1600, 60000
    rule = ("one random problem without constraints (bounds allowed), often noisy, with failing evaluations and small "
            "budgets; non-trivial if the objective improved on the start")

    def gen(self, r, i, tier):
        s = problem(r, noise=0.4, cons="none")
        s["opts"]["verbose"] = r.choice([1, 1, 2, 3, 0])
        plan_faults(r, s, 0.35)
        return {"problem": s}

    def run(self, sc, ctx):
        s = sc["problem"]
        r = ctx.run(s)
        if r["exc"] or not r["evals"] or r["flag"] in (1, 2):
            return
        k = first_bad(r, 0)
        if k is not None and k <= s["n"]:
            return
        f0 = r["evals"][0]["f"]
        if abs(f0) < BIG:
            ctx.check(r["f"] <= f0, "worse", "returned f = %r, the start had %r (flag %s)" % (r["f"], f0, r["flag"]))
        if r["f"] < f0:
            log_sig(ctx, r)
            ctx.hit("improved")
        rows = history_rows(r)
        if rows:
            last = None
            for j, row in enumerate(rows):
                f = row[2]
                if last is not None:
                    ctx.check(f <= last + 2e-8 * abs(last) + 1e-300, "history",
                              "the objective in the history rises from %.9g to %.9g in row %d" % (last, f, j))
                last = f
            ctx.check(r["f"] <= last + 2e-8 * abs(last) + 1e-300, "final", "returned f = %r, but %.9g was reached" % (r["f"], last))
            ctx.hit("history rows", len(rows))


def history_rows(r):
    txt = r["files"].get("convhist.m", "")
    out = []
    for l in txt.split("\n")[2:]:
        l = l.strip()
        if not l or l.startswith("]"):
            continue
        try:
            out.append([float(v) for v in l.rstrip("];").split()])
        except ValueError:
            return []
    return [q for q in out if len(q) >= 4]


class C08(Prop):
    id = "C08"
    title = "A budget only cuts a run short, and is kept"
    quick_n, thorough_n = 500, 20000
    rule = ("a long run and several runs of the same problem with smaller iteration or evaluation budgets (also with a "
            "failing evaluation in both); non-trivial if the smaller budget ended the run")

    def gen(self, r, i, tier):
        s = problem(r, noise=0.3)
        s["opts"]["miter"], s["opts"]["msimul"] = 60, 90
        if r.random() < 0.2:
            plan_faults(r, s, 1.0)
        return {"problem": s, "points": [{"key": r.choice(["miter", "msimul", "msimul"]), "u": round(r.random(), 4)} for _ in range(3)]}

    def run(self, sc, ctx):
        s = sc["problem"]
        n = s["n"]
        ref = ctx.run(s, "long", probe="budget")
        if ref["exc"] or ref["flag"] in (1, 2):
            return
        self.caps(ctx, s, ref)
        for p in sc["points"]:
            full = len(ref["evals"]) if p["key"] == "msimul" else int(ref["niter"] or 1)
            b = min(1 + int(p["u"] * (full + 1)), s["opts"][p["key"]])
            q = clone(s)
            q["opts"] = dict(s["opts"])
            q["opts"][p["key"]] = b
            r = ctx.run(q, "%s=%d" % (p["key"], b), probe="budget")
            what = "%s=%d: " % (p["key"], b)
            if r["exc"]:
                ctx.bad("raised", what + "raised %s" % (r["exc"],))
            self.caps(ctx, q, r)
            a, z = xs(r), xs(ref)
            ctx.check(a == z[:len(a)], "prefix", lambda: what + "evaluation %d differs from the longer run"
                      % next(j for j in range(len(a)) if j >= len(z) or a[j] != z[j]))
            if r["flag"] in (5, 6):
                ctx.hit("cut by " + p["key"])
                log_sig(ctx, r)
                if r["flag"] == 6:
                    ctx.check(len(a) >= q["opts"]["msimul"], "early", what + "stopped for the evaluation budget after %d" % len(a))
                else:
                    ctx.check(r["niter"] >= q["opts"]["miter"], "early", what + "stopped for the iteration budget after %d" % r["niter"])
            else:
                same_run(ctx, ref, r, "differs", what + "the run was not cut")

    def caps(self, ctx, s, r):
        for b in r["probe_bad"]:
            ctx.bad("overrun", b[0])
        n = s["n"]
        m = s["opts"]["msimul"]
        # the check for the budget is made once per iteration; one iteration can at most
        # rebuild a full set of points and try one step
        over = (n + 1) * (n + 2) // 2 + 1
        if str(s["opts"].get("whichmodel", "")).lower() == "regression":
            over *= 2       # regression models use up to twice as many points
        ctx.check(len(r["evals"]) <= max(m - 1, n + 1) + over, "overrun",
                  "%d evaluations with a budget of %d (%d variables)" % (len(r["evals"]), m, n))
        if r["niter"] is not None and r["flag"] not in (1, 2, 3):
            # a repair and a step in one pass count as two iterations
            ctx.check(r["niter"] <= s["opts"]["miter"] + 1, "overrun", "%d iterations with a budget of %d" % (r["niter"], s["opts"]["miter"]))


class C19(Prop):
    id = "C19"
    title = "Models are built only from what the black box really answered"
    quick_n, thorough_n = 1100, 40000
    rule = ("one random problem with the observation hook on: every interpolation set, its values and the iterate are "
            "compared with the ledger at every iteration, under noise, spikes, infinite values and failures; "
            "non-trivial if at least two iterations were observed")

    def gen(self, r, i, tier):
        s = problem(r, noise=0.5)
        nc = s["me"] + s["mi"]
        f = {}
        for _ in range(r.choice([0, 0, 1, 2])):
            f[str(fault_index(r, s["n"]))] = r.choice(["f_spike", "f_big", r.choice(list(P.C_BIG)) if nc else "f_spike", gen_fault(r, nc)])
        if f:
            s["evalfaults"] = f
        return {"problem": s}

    def run(self, sc, ctx):
        r = ctx.run(sc["problem"], probe=True)
        if r["probe_bad"]:
            ctx.bad("foreign-data", str(r["probe_bad"][0]))
        ctx.hit("iterations observed", r["probe_count"])
        if r["probe_count"] >= 2:
            log_sig(ctx, r)


class C21(Prop):
    id = "C21"
    title = "The models in use fit the data in use, whatever happened before"
    quick_n, thorough_n = 1100, 40000
    rule = ("one random problem with the observation hook on: at every iteration the objective and constraint models are "
            "evaluated (independently) at the interpolation points and compared with the values there, within a bound "
            "given by the condition number; under noise, spikes and failures; non-trivial if at least two iterations "
            "were judged")

    def gen(self, r, i, tier):
        s = problem(r, noise=0.5)
        nc = s["me"] + s["mi"]
        f = {}
        for _ in range(r.choice([0, 0, 1, 2])):
            f[str(fault_index(r, s["n"]))] = r.choice(["f_spike", "f_spike", "f_big", gen_fault(r, nc)])
        if f:
            s["evalfaults"] = f
        return {"problem": s}

    def run(self, sc, ctx):
        r = ctx.run(sc["problem"], probe="fit")
        if r["probe_bad"]:
            ctx.bad("misfit", str(r["probe_bad"][0][0]))
        ctx.hit("iterations judged", r["probe_count"])
        ctx.hit("iterations with a nearly singular set, not judged", r["probe_skipped"])
        if r["probe_count"] >= 2:
            log_sig(ctx, r)


class C25(C21):
    id = "C25"
    title = "Derivatives in use are those of the models in use"
    quick_n, thorough_n = 1100, 40000
    rule = ("one random problem with the observation hook on: at every iteration gradient, Jacobian and Hessian in use are "
            "compared with those of the models in use (independently computed), under noise, spikes and failures; "
            "non-trivial if at least two iterations were judged")

    def run(self, sc, ctx):
        r = ctx.run(sc["problem"], probe="deriv")
        if r["probe_bad"]:
            ctx.bad("stale derivative", str(r["probe_bad"][0][0]))
        ctx.hit("iterations judged", r["probe_count"])
        ctx.hit("Hessians judged", r["probe_skipped"])
        if r["probe_count"] >= 2:
            log_sig(ctx, r)


class C27(C21):
    id = "C27"
    title = "Trial steps stay in the trust region and the bounds and promise progress"
    quick_n, thorough_n = 3000, 60000
    rule = ("one random problem with the observation hook on: every trial step, after any history of noise, outliers, failures, "
            "repairs and rejected steps, is compared with radius, bounds and (without constraints) the minimum of the model over "
            "the trust region; with constraints with the linearised equations and steepest descent along them; non-trivial if at least two trial steps were judged")

    def gen(self, r, i, tier):
        if r.random() > 0.35:
            return C21.gen(self, r, i, tier)
        # narrow boxes and models spoilt by outliers: steps at their limits
        s = problem(r, noise=0.2, cons=r.choice(["none", "none", "eq"]), bounds=["tiny", "tight", "near"], big=0.1)
        s["opts"]["hess_approx"] = r.choice(["bfgs", "bfgs", "model"])
        s["opts"]["msimul"] = max(s["opts"].get("msimul", 0), 60)
        s["opts"]["miter"] = max(s["opts"].get("miter", 0), 60)
        s["evalfaults"] = {str(r.randint(1, 2 * s["n"] + 4)): r.choice(["f_spike", "f_spike", "f_big"]) for _ in range(r.choice([1, 1, 2]))}
        return {"problem": s}

    def run(self, sc, ctx):
        r = ctx.run(sc["problem"], probe="trial")
        if r["probe_bad"]:
            ctx.bad("trial step", str(r["probe_bad"][0][0]))
        ctx.hit("trial steps judged", r["probe_count"])
        ctx.hit("compared with the best steps", r["probe_skipped"])
        if r["probe_other"]:
            ctx.hit("no step found within bounds", r["probe_other"])
        if r["probe_count"] >= 2:
            log_sig(ctx, r)


ALL = [C01, C02, C03, C04, C05, C06, C07, C08, C19, C21, C25, C27]
