"""Properties over sequences, nestings and interleavings of runs in one process."""
import gc
import os
import signal
import sys
import threading
import warnings

from sim import core, execute, problems as P
from .base import (FLAGS, Prop, clone, diff, fault_index, fmt, gen_fault, log_sig, num, problem, same_run, xs)

REJECTS = ["no-f", "nonfunc-f", "no-x0", "no-c-eq", "no-c-ineq", "nonfunc-c", "lb>ub", "lb>ub-ineq", "bad-hess",
           "bad-model", "bad-degree", "neg-tol-grad", "neg-tol-feas", "neg-tol-bnds", "neg-miter", "neg-msimul",
           "x0-matrix", "x0-empty", "all-fixed", "bad-descent", "bad-dxmin", "bad-inf"]

BAD_OPTIONS = {
    "bad-hess": ("hess_approx", ["exact", "bfg", "", "models", "bfgs2", "newton"]),
    "bad-model": ("whichmodel", ["cubic", "sub", "", "subbasis2", "l2", "frobenius", "regressions"]),
    "bad-degree": ("final_degree", ["sextic", "diag", "", "quad", "linear2", "cubic"]),
    "bad-descent": ("algo_descent", ["armijo", "", "wolfes", "powel"]),
    "neg-tol-grad": ("tol_grad", [-1.0, -1e-12, -1e-5, -1e300]),
    "neg-tol-feas": ("tol_feas", [-1e-3, -1e-12, -1e-5, -1e300]),
    "neg-tol-bnds": ("tol_bnds", [-1.0, -1e-12, -1e-5, -1e300]),
    "neg-miter": ("miter", [-1, 0, 0, -100]),
    "neg-msimul": ("msimul", [-5, 0, 0, -1]),
    "bad-dxmin": ("dxmin", [0, 0.0, -1e-8, -1.0]),
    "bad-inf": ("inf", [0, 0.0, -1.0, -1e20]),
}
GAPS = [1e-14, 1e-12, 1e-10, 1e-9, 1e-7, 1e-5, 1e-3, 1.0, 2.0, 1e6]


def rejected_call(kind, spec, sim, rec, u=0.0):
    """-> (args of optimize, expected behaviour) for a call that must be refused"""
    import numpy as np
    bb = P.BlackBox(spec, sim, rec=rec)
    n = spec["n"]
    o = P.make_options(dict(spec.get("opts") or {}), spec.get("oform"))
    X0, lb, ub = bb.args()
    me, mi, c = bb.me, bb.mi, (bb.c if bb.nc else None)
    f = bb.f

    def cc(x):
        rec.calls.append(("c", tuple(x)))
        return [0.0]
    if kind == "no-f":
        f = None
    elif kind == "nonfunc-f":
        f = 3.0
    elif kind == "no-x0":
        X0 = None
    elif kind == "no-c-eq":
        me, mi, c = 1, 0, None
    elif kind == "no-c-ineq":
        me, mi, c = 0, 1, None
    elif kind == "nonfunc-c":
        me, c = max(me, 1), "constraints"
    elif kind in ("lb>ub", "lb>ub-ineq"):
        # by a little or by a lot, in any component
        j, gap = int(u * 997) % n, GAPS[int(u * len(GAPS))]
        b = [1.0, 0.0, -3.0, 1e3][int(u * 991) % 4]
        lb, ub = [-1e4] * n, [1e4] * n
        lb[j], ub[j] = b + gap * max(1.0, abs(b)), b
        me = mi = 0
        c = None
        if kind == "lb>ub-ineq":
            mi, c = 1, cc
    elif kind == "all-fixed":
        lb, ub = [0.5] * n, [0.5] * n
    elif kind == "x0-matrix":
        X0, lb, ub = np.ones((2, 2)), None, None
        me = mi = 0
        c = None
    elif kind == "x0-empty":
        X0, lb, ub = np.ones((0,)), None, None
        me = mi = 0
        c = None
    else:
        key, vals = BAD_OPTIONS[kind]
        val = vals[int(u * len(vals))]
        setattr(o, key, val)
    if c is None and me + mi == 0:
        return (o, f, X0, lb, ub)
    if c is None:
        return (o, f, X0, lb, ub, me, mi)
    return (o, f, X0, lb, ub, me, mi, c)


def do_reject(kind, spec, files=None, u=0.0):
    import numpy as np
    import sqpdfo
    sim = core.Sim()
    if files:
        sim.fs.files.update({k: v.encode("latin1") for k, v in files.items()})
    rec = P.Recorder()
    out = {"kind": kind, "exc": None, "flag": None}
    args = rejected_call(kind, spec, sim, rec, u)
    with sim:
        try:
            x, lm, info = sqpdfo.optimize(*args)
            out["flag"] = int(info.flag)
        except (Exception, SystemExit) as e:
            out["exc"] = (type(e).__name__, str(e)[:200])
    out.update(evals=rec.evals, calls=rec.calls, faults=dict(sim.fault_counts), steps=0, log=sim.log,
               files={k: v.decode("latin1") for k, v in sim.fs.files.items()}, leaks=sorted({h.path for h in sim.fs.handles}))
    return out


# ------------------------------------------------------------- session ops
def gen_op(r, tier):
    k = r.choice(["run", "run", "evalfault", "evalfault", "async", "async", "lapack", "stdout", "fs", "reject", "reject", "default"])
    s = problem(r, nmax=3, noise=0.2, small=True)
    op = {"op": k, "problem": s}
    if k == "evalfault":
        s["evalfaults"] = {str(fault_index(r, s["n"], 15)): gen_fault(r, s["me"] + s["mi"])}
        if r.random() < 0.2:
            s["evalfaults"] = {q: "f_exc:KeyboardInterrupt" for q in s["evalfaults"]}
    elif k == "async":
        op["async"] = {str(int(10 ** r.uniform(1.0, 4.7))): r.choice(["interrupt", "memory"])}
    elif k == "lapack":
        op["lapack"] = {str(int(10 ** r.uniform(0, 2.7))): r.choice(["linalg", "memory"])}
    elif k == "stdout":
        s["opts"]["verbose"] = r.choice([1, 2, 3])
        op["stdout"] = {str(r.randint(0, 120)): r.choice(["epipe", "eio"])}
    elif k == "fs":
        s["opts"]["verbose"] = r.choice([1, 2, 3])
        op["fs"] = {str(r.randint(0, 40)): r.choice(["eacces", "emfile", "enospc", "eio", "torn", "short"]) for _ in range(r.choice([1, 1, 3]))}
    elif k == "reject":
        op["kind"], op["u"] = r.choice(REJECTS), round(r.random(), 4)
    elif k == "default":
        s["opts"] = {"verbose": r.choice([0, 1]), "msimul": 15}
        if s["n"] > 2:
            s["opts"]["msimul"] = 10
        if r.random() < 0.5:
            op["problem"] = without_options(r)
    return op


def without_options(r):
    """a run that leaves every option to the library"""
    s = problem(r, nmax=2, small=True, cons=r.choice(["none", "none", "eq", "mix"]), objs=["quad", "sphere", "cubic", "sqrt"], big=0)
    s["opts"] = None
    return s


def do_op(op, files):
    s = op["problem"]
    if op["op"] == "reject":
        return do_reject(op["kind"], s, files, op.get("u", 0.0))
    return execute.simulate(s, fs_plan=op.get("fs"), stdout_plan=op.get("stdout"), lapack_plan=op.get("lapack"),
                            async_plan=op.get("async"), files=files)


SAME = ("outcome", "stdout", "exc", "flag")


class C09(Prop):
    id = "C09"
    title = "A run does not depend on what the process did before"
    quick_n, thorough_n = 700, 16000
    rule = ("a session of 1-6 operations in one process (runs that succeed, runs whose evaluations, LAPACK calls, files "
            "or terminal fail, runs interrupted at an arbitrary line, refused calls), then a probe run, compared with the "
            "same run in a fresh process; non-trivial always")
    sig_measure = "the operation kinds and event logs of a session"

    def gen(self, r, i, tier):
        probe = problem(r, nmax=3, noise=0.2)
        probe["opts"]["msimul"] = r.choice([10, 20, 40])
        if r.random() < 0.12:
            probe = without_options(r)
        ops = [gen_op(r, tier) for _ in range(r.choice([1, 1, 2, 2, 3, 4, 6]))]
        if probe["opts"] is None:
            pass
        elif r.random() < 0.25:    # the same problem before, cut differently
            q = clone(probe)
            q["opts"] = dict(probe["opts"], msimul=r.choice([3, 8, 15]))
            ops[-1] = {"op": "run", "problem": q}
        if r.random() < 0.3:     # constrained before unconstrained, and the other way round
            ops[-1] = {"op": "run", "problem": problem(r, nmax=3, small=True, cons="mix" if not probe["mi"] else "none")}
        if r.random() < 0.1:     # two runs that leave every option to the library
            ops[0] = {"op": "run", "problem": without_options(r)}
        return {"ops": ops, "problem": probe}

    def run(self, sc, ctx):
        s = sc["problem"]
        ref = ctx.run(s, "fresh process")

        def session():
            files, out = {}, []
            for op in sc["ops"]:
                r = do_op(op, files)
                files = r.get("files", files)
                out.append(r)
            out.append(execute.simulate(s, files=files))
            return out
        rs = ctx.fork(session)
        for op, r in zip(sc["ops"], rs):
            ctx.book(r, op["op"])
            ctx.hit("before: " + op["op"] + (" aborted" if r.get("exc") else ""))
        r = ctx.book(rs[-1], "after the session")
        if r.get("steplimit"):
            ctx.bad("differs", "after the session the run does not end")
        same_run(ctx, ref, r, "differs", "after %s" % "+".join(o["op"] for o in sc["ops"]), SAME)
        a, b = ref["files"].get("convhist.m"), r["files"].get("convhist.m")
        ctx.check(a == b, "history", lambda: "after the session the history file differs: %s instead of %s" % (diff(b, a), diff(a, b)))
        ctx.sig([o["op"] for o in sc["ops"]], [q.get("log") for q in rs])


class C10(Prop):
    id = "C10"
    title = "Runs may be nested inside the functions of other runs"
    quick_n, thorough_n = 700, 16000
    rule = ("an outer run whose objective or constraint function performs one to three further optimisations (constrained, "
            "unconstrained, refused, failing, interrupted, one level deeper) at chosen evaluations; outer and inner runs "
            "are compared with the same runs made alone; non-trivial if an inner run was made")
    sig_measure = "the event logs of outer and inner runs together"

    def gen(self, r, i, tier):
        outer = problem(r, nmax=3, noise=0.2)
        outer["opts"]["msimul"] = r.choice([8, 15, 25])
        inners = []
        for _ in range(r.choice([1, 1, 2, 3])):
            s = problem(r, nmax=2, noise=0.2, small=True, big=0)
            if r.random() < 0.25:
                s["evalfaults"] = {str(fault_index(r, s["n"], 10)): gen_fault(r, s["me"] + s["mi"])}
            inn = {"k": r.choice([0, 1, 2, 3, 5, 8, r.randint(0, 20)]), "in": "f", "problem": s}
            if outer["me"] + outer["mi"] and r.random() < 0.4:
                inn["in"] = "c"
            if r.random() < 0.2:
                inn["kind"] = r.choice(REJECTS)
            elif r.random() < 0.3:
                inn["deeper"] = {"k": r.randint(0, 4), "problem": problem(r, nmax=2, small=True, big=0)}
            inners.append(inn)
        return {"problem": outer, "inners": inners}

    def run(self, sc, ctx):
        s = sc["problem"]
        ref = ctx.run(s, "outer alone")
        refs = {}
        for j, inn in enumerate(sc["inners"]):
            if "kind" not in inn:
                refs[j] = ctx.run(inn["problem"], "inner %d alone" % j)
            if "deeper" in inn:
                refs[j, "d"] = ctx.run(inn["deeper"]["problem"], "innermost %d alone" % j)

        def nested():
            got, st = {}, {}

            def solo(spec, sim, hook=None):
                bb = P.BlackBox(spec, sim, hook=hook)
                out = P.call_optimize(bb)
                return execute.observe(out, bb, sim)

            def hook(k, which, x):
                sim = st["sim"]
                for j, inn in enumerate(sc["inners"]):
                    if inn["k"] == k and inn["in"] == which and j not in got:
                        got[j] = None
                        if "kind" in inn:
                            import sqpdfo
                            rec = P.Recorder()
                            args = rejected_call(inn["kind"], inn["problem"], sim, rec, inn.get("u", 0.0))
                            try:
                                _, _, info = sqpdfo.optimize(*args)
                                got[j] = {"flag": int(info.flag), "evals": rec.evals, "calls": rec.calls, "exc": None}
                            except (Exception, SystemExit) as e:
                                got[j] = {"flag": None, "exc": (type(e).__name__, ""), "evals": rec.evals, "calls": rec.calls}
                            continue
                        deep = inn.get("deeper")

                        def dhook(k2, w2, x2, j=j, deep=deep):
                            if deep and k2 == deep["k"] and w2 == "f" and (j, "d") not in got:
                                got[j, "d"] = None
                                got[j, "d"] = solo(deep["problem"], sim)
                        got[j] = solo(inn["problem"], sim, dhook if deep else None)
            sim = core.Sim(step_limit=execute.STEP_LIMIT)
            st["sim"] = sim
            bb = P.BlackBox(s, sim, hook=hook)
            try:
                with sim:
                    out = P.call_optimize(bb)
            except core.StepLimit:
                return {"steplimit": "nested", "evals": [], "got": {}}
            r = execute.observe(out, bb, sim)
            r.update(execute.sim_part(sim))
            r["got"] = got
            return r
        r = ctx.book(ctx.fork(nested), "nested")
        if r.get("steplimit"):
            ctx.bad("outer", "with nested runs the outer run does not end")
        for key, g in r["got"].items():
            if g is None:
                ctx.bad("inner", "nested run %s did not finish" % (key,))
            if key in refs:
                same_run(ctx, refs[key], g, "inner", "nested run %s" % (key,), ("outcome", "exc", "flag"))
                ctx.hit("deeper nested run" if isinstance(key, tuple) else "nested run")
            else:
                ctx.check(not g["evals"] and not g["calls"] and (g["flag"] in (1, 2) or g["exc"]), "inner", "nested call to be refused: %s" % g)
                ctx.hit("nested refused call")
        same_run(ctx, ref, r, "outer", "outer run with %d nested runs" % len(r["got"]), ("outcome", "exc", "flag"))
        if r["got"]:
            log_sig(ctx, r)


class C11(Prop):
    id = "C11"
    title = "Runs in different threads do not influence each other"
    quick_n, thorough_n = 700, 8000
    rule = ("two to four runs in threads under one baton; a pseudo-random schedule decides after which executed source "
            "line of the package the baton moves (dense around start-up, sparse, or uniform); each run is compared with "
            "the same run made alone; non-trivial if at least two switches happened while both runs were active")
    sig_measure = "the sequences of (thread, line count) at which the baton moved"

    def gen(self, r, i, tier):
        n = r.choice([2, 2, 2, 3, 4])
        ps = []
        for _ in range(n):
            s = problem(r, nmax=2, noise=0.2, small=True, big=0)
            s["opts"]["msimul"] = r.choice([4, 6, 10, 15])
            s["opts"]["verbose"] = r.choice([0, 1, 1, 3])
            if r.random() < 0.25:
                s["evalfaults"] = {str(fault_index(r, s["n"], 10)): gen_fault(r, s["me"] + s["mi"])}
            ps.append(s)
        mode = r.choice(["dense", "mixed", "sparse"])
        segs = []
        for _ in range({"dense": 200, "mixed": 80, "sparse": 25}[mode]):
            hi = {"dense": 2.2, "mixed": 3.3, "sparse": 4.0}[mode]
            segs.append([r.randrange(n), max(1, int(10 ** r.uniform(0, hi)))])
        return {"ops": [{"problem": p} for p in ps], "segments": segs}

    def run(self, sc, ctx):
        specs = [o["problem"] for o in sc["ops"]]
        refs = [ctx.run(s, "alone %d" % j) for j, s in enumerate(specs)]

        def threads():
            sim = core.Sim(segments=sc["segments"], ntasks=len(specs))
            bbs = [P.BlackBox(s, sim) for s in specs]

            def task(j):
                return lambda: execute.observe(P.call_optimize(bbs[j]), bbs[j], sim)
            with sim:
                res = sim.sched.run([task(j) for j in range(len(specs))])
            return {"res": res, "switches": sim.sched.switches, "trace": sim.sched.trace, "ticks": sim.sched.ticks,
                    "log": sim.log, "faults": dict(sim.fault_counts), "evals": [], "steps": sim.sched.ticks}
        out = ctx.book(ctx.fork(threads), "interleaved")
        for j, (a, b) in enumerate(zip(refs, out["res"])):
            if not isinstance(b, dict):
                ctx.bad("died", "thread %d: %s" % (j, b))
            if a["exc"] is None and b["exc"] is not None:
                ctx.bad("raised", "thread %d raised %s: %s (in %s)" % (j, b["exc"][0], b["exc"][1], b["exc_where"]))
            same_run(ctx, a, b, "differs", "thread %d of %d" % (j, len(specs)), ("outcome", "exc", "flag"))
        ctx.hit("switches", out["switches"])
        if out["switches"] >= 2:
            ctx.sig(out["trace"])


_try = []


def try_lines():
    """(file, line) of the statements of the package inside a try block"""
    if not _try:
        import ast
        import sqpdfo
        d = os.path.dirname(sqpdfo.__file__)
        out = set()
        for fn in sorted(os.listdir(d)):
            if fn.endswith(".py"):
                with open(os.path.join(d, fn)) as fh:
                    tree = ast.parse(fh.read())
                for node in ast.walk(tree):
                    if isinstance(node, ast.Try):
                        for st in node.body:
                            out.update((fn, ln) for ln in range(st.lineno, st.end_lineno + 1))
        _try.append(out)
    return _try[0]


class C17(Prop):
    id = "C17"
    title = "Interrupts and memory failures inside a run are never lost"
    quick_n, thorough_n = 240, 10000
    rule = ("a run measured in executed source lines, then (uniformly over time, over executed lines and over executed "
            "lines inside try blocks) runs of the same problem in which a KeyboardInterrupt or "
            "MemoryError is raised from the package at a chosen line, and runs in which a LAPACK call runs out of memory "
            "or does not converge; non-trivial if the exception was delivered")
    sig_measure = "the source position (file, function, line) of delivery and the event log"

    def gen(self, r, i, tier):
        s = problem(r, nmax=3, noise=0.1, small=True, big=0.02)
        s["opts"]["verbose"] = r.choice([0, 1, 2, 3])
        pts = []
        for _ in range(6):
            pts.append({"u": round(r.random(), 6), "kind": r.choice(["interrupt", "interrupt", "memory"])})
        # rarely executed lines get their share, lines inside try blocks a larger one
        for k in ("any", "any", "try", "try"):
            pts.append({"u": round(r.random(), 6), "t": round(r.random(), 4), "line": k,
                        "kind": r.choice(["interrupt", "interrupt", "memory"])})
        for _ in range(2):
            pts.append({"u": round(r.random(), 6), "kind": r.choice(["lapack-memory", "lapack-memory", "lapack-linalg"])})
        # Ctrl-C while the user's own function runs, which is where the time is spent
        pts.append({"u": round(r.random(), 6), "kind": "user-" + r.choice("ff" + "c" * (s["me"] + s["mi"] > 0))})
        return {"problem": s, "points": pts}

    def run(self, sc, ctx):
        s = sc["problem"]
        ref = ctx.run(s, "reference", clock="line", step_limit=30_000_000)
        if ref["exc"]:
            return
        N, L = ref["steps"], ref["lapack_calls"]
        for p in sc["points"]:
            if p["kind"].startswith("user-"):
                if not ref["evals"] or s.get("evalfaults"):
                    continue
                k = int(p["u"] * len(ref["evals"]))
                r = ctx.run(clone(s, evalfaults={str(k): p["kind"][5:] + "_exc:KeyboardInterrupt"}), "interrupt in the user's function, call %d" % k)
                if len(r["evals"]) <= k or "raised" not in (r["evals"][k]["f"], r["evals"][k]["c"]):
                    continue
                ctx.sig("user", p["kind"], r["log"])
                ctx.hit(p["kind"] + (" propagated" if r["exc"] else " -> flag %s" % r["flag"]))
                ctx.check(r["exc"] and r["exc"][0] == "KeyboardInterrupt", "swallowed",
                          "KeyboardInterrupt in %s at call %d: the caller got %s" % (p["kind"][5:], k, r["exc"] or "flag %s" % r["flag"]))
                ctx.check(len(r["evals"]) == k + 1, "continued", "%d evaluations after the interrupt" % (len(r["evals"]) - k - 1))
                continue
            if p["kind"].startswith("lapack"):
                if not L:
                    continue
                k = int(p["u"] * L)
                r = ctx.run(s, "%s at call %d" % (p["kind"], k), lapack_plan={str(k): p["kind"][7:]})
                fired = [q for q, (n_, kind, d) in enumerate(r["log"]) if kind.startswith("lapack.")]
                what = "%s in LAPACK call %d: " % (p["kind"][7:], k)
            else:
                k = 1 + int(p["u"] * N)
                if "line" in p:
                    pos = ref["positions"]
                    if p["line"] == "try":
                        pos = [q for q in pos if q[:2] in try_lines()]
                    if not pos:
                        continue
                    ticks = pos[int(p["u"] * len(pos))][2]
                    k = ticks[int(p["t"] * len(ticks))]
                r = ctx.run(s, "%s at line tick %d" % (p["kind"], k), async_plan={str(k): p["kind"]}, step_limit=30_000_000)
                fired = [q for q, (n_, kind, d) in enumerate(r["log"]) if kind.startswith("async.")]
                what = "%s at line tick %d%s: " % (p["kind"], k, " (%s:%s:%s)" % tuple(r["async_fired"][0][2]) if r["async_fired"] else "")
            if not fired:
                continue
            where = r["async_fired"][0][2] if r["async_fired"] else None
            ctx.sig(where, r["log"])
            after = [d for n_, kind, d in r["log"][fired[0] + 1:] if kind == "eval.f"]
            ctx.hit(p["kind"] + (" propagated" if r["exc"] else " -> flag %s" % r["flag"]))
            if p["kind"] == "lapack-linalg":
                # numerical failure: handled or reported, but never a wrong claim
                if r["exc"] is None:
                    x = tuple(r["x"]) if r["x"] else None
                    if r["flag"] in (0, 5, 6, 15):
                        ctx.check(any(e["x"] == x and e["f"] == r["f"] for e in r["evals"]), "answer",
                                  what + "flag %s with an answer that is no evaluation" % r["flag"])
                else:
                    ctx.check(r["exc"][0] == "LinAlgError", "swapped", what + "raised %s: %s" % r["exc"])
                continue
            want = "SimInterrupt" if p["kind"] == "interrupt" else "SimMemoryError"
            if r["exc"] is not None:
                ctx.check(r["exc"][0] == want, "swapped", what + "the caller got %s: %s" % r["exc"])
                ctx.check(not after, "continued", what + "%d evaluations after it" % len(after))
            else:
                ctx.check(p["kind"] != "interrupt" and r["flag"] == 3 and not after, "swallowed",
                          what + "the run went on for %d evaluations and returned flag %s" % (len(after), r["flag"]))


class C18(Prop):
    id = "C18"
    title = "A refused call asks nothing and changes nothing"
    quick_n, thorough_n = 800, 20000
    rule = ("a call with one invalid argument or option (22 kinds, by a little or by a lot), alone, after other runs, or inside a sequence; then a "
            "probe run; non-trivial always")
    sig_measure = "the refused kinds and the event logs"

    def gen(self, r, i, tier):
        kinds = [r.choice(REJECTS) for _ in range(r.choice([1, 1, 2, 3]))]
        if i < 2 * len(REJECTS):
            kinds[0] = REJECTS[i % len(REJECTS)]
        s = problem(r, nmax=3, noise=0.1, small=True)
        q = problem(r, nmax=3, small=True)
        return {"ops": [{"kind": k, "u": round(r.random(), 4), "problem": problem(r, nmax=3, small=True, big=0)} for k in kinds],
                "pre": q if r.random() < 0.5 else None, "problem": s}

    def run(self, sc, ctx):
        s = sc["problem"]
        ref = ctx.run(s, "fresh")

        def session():
            files, out = {}, []
            if sc["pre"]:
                files = execute.simulate(sc["pre"]).get("files", {})
            for op in sc["ops"]:
                b4 = process_state()
                q = do_reject(op["kind"], op["problem"], files, op.get("u", 0.0))
                q["state"] = state_diff(b4, process_state())
                files = q["files"]
                out.append(q)
            out.append(execute.simulate(s, files=files))
            return out
        rs = ctx.fork(session)
        for op, q in zip(sc["ops"], rs):
            ctx.book(q, op["kind"])
            k = op["kind"]
            ctx.hit(k)
            ctx.check(not q["evals"] and not q["calls"], "evaluated", "%s: the user's functions were called %d times" % (k, len(q["calls"])))
            if q["exc"]:
                ctx.check(k.startswith("nonfunc") and q["exc"][0] in ("SystemExit", "TypeError", "ValueError"), "raised",
                          "%s: raised %s: %s" % (k, q["exc"][0], q["exc"][1]))
            else:
                ctx.check(q["flag"] in (1, 2), "accepted", "%s: flag %s" % (k, q["flag"]))
            ctx.check(not q["state"], "state", "%s: changed %s" % (k, q["state"]))
            ctx.check(not q["leaks"], "leak", "%s: left %s open" % (k, q["leaks"]))
        r = ctx.book(rs[-1], "after")
        same_run(ctx, ref, r, "after", "after %s" % [o["kind"] for o in sc["ops"]], SAME)
        ctx.sig([o["kind"] for o in sc["ops"]], [q.get("log") for q in rs])


# ------------------------------------------------------------- process state
def process_state():
    import random
    import numpy as np
    import locale
    fds = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            fds.append((fd, os.readlink("/proc/self/fd/" + fd)))
        except OSError:
            pass
    fds = sorted(f for f in fds if "/proc/" not in f[1])
    return {
        "warning filters": [str(f) for f in warnings.filters],
        "showwarning": id(warnings.showwarning),
        "numpy error handling": dict(np.geterr()), "numpy errcall": id(np.geterrcall()),
        "numpy print options": {k: str(v) for k, v in np.get_printoptions().items()},
        "random state": hash(random.getstate()),
        "numpy random state": str(np.random.get_state()[1][:10].tolist()) + str(np.random.get_state()[2]),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "signal handlers": {s: str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1)},
        "threads": sorted(t.name for t in threading.enumerate()),
        "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(),
        "gc": (gc.isenabled(), gc.get_threshold()),
        "stdout": id(sys.stdout), "stderr": id(sys.stderr), "stdin": id(sys.stdin),
        "excepthook": id(sys.excepthook), "displayhook": id(sys.displayhook),
        "trace": (str(sys.gettrace()), str(sys.getprofile())),
        "sys.path": list(sys.path), "locale": locale.setlocale(locale.LC_ALL),
        "umask": _umask(), "descriptors": fds,
        "alarm": signal.getitimer(signal.ITIMER_REAL),
        "builtins": sorted(vars(__import__("builtins"))),
        "linalg": {k: id(getattr(np.linalg, k)) for k in ("svd", "qr", "norm", "solve", "cholesky", "inv", "cond")},
    }


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def state_diff(a, b):
    return {k: (str(a[k])[:120], str(b[k])[:120]) for k in a if a[k] != b[k]}


class C20(Prop):
    id = "C20"
    title = "A run leaves the process as it found it"
    quick_n, thorough_n = 3000, 24000
    rule = ("process-wide state (warning filters, numpy error handling and print options, random states, directory, "
            "environment, signals, threads, streams, descriptors, hooks) before and after runs that succeed, fail, are "
            "interrupted or meet I/O and LAPACK faults, with state customised by the caller and warnings or floating "
            "point errors set to raise nothing unusual; and as seen from inside the user's functions; non-trivial always")

    def gen(self, r, i, tier):
        op = gen_op(r, tier)
        op["custom"] = [k for k in ("filters", "printoptions", "errstate", "seed") if r.random() < 0.4]
        return {"op": op}

    def run(self, sc, ctx):
        op = sc["op"]

        def one():
            import numpy as np
            import random
            if "filters" in op["custom"]:
                warnings.filterwarnings("always", category=DeprecationWarning, module="nowhere")
            if "printoptions" in op["custom"]:
                np.set_printoptions(precision=3, suppress=True)
            if "errstate" in op["custom"]:
                np.seterr(over="ignore", divide="ignore", invalid="ignore")
            if "seed" in op["custom"]:
                random.seed(5)
                np.random.seed(7)
            execute.core_warm()
            seen = {}
            b4 = process_state()
            if op["op"] == "reject":
                r = do_reject(op["kind"], op["problem"], {}, op.get("u", 0.0))
            else:
                def hook(k, which, x):
                    if k not in (0, 2, 5):
                        return
                    now = process_state()
                    d = state_diff(b4, now)
                    for q in ("stdout", "stderr", "linalg", "descriptors", "random state", "numpy random state"):
                        d.pop(q, None)
                    if d and not seen:
                        seen.update({"at": "%s %d" % (which, k), "diff": d})
                r = execute.simulate(op["problem"], fs_plan=op.get("fs"), stdout_plan=op.get("stdout"),
                                     lapack_plan=op.get("lapack"), async_plan=op.get("async"), hook=hook)
            r["state"] = state_diff(b4, process_state())
            r["seen"] = seen
            return r
        r = ctx.book(ctx.fork(one), op["op"])
        if r.get("steplimit"):
            return
        ctx.check(not r["state"], "state", "%s run (flag %s, exception %s) changed %s" % (op["op"], r.get("flag"), r.get("exc"), r["state"]))
        ctx.check(not r["seen"], "seen-inside", "inside the user's functions: %s" % r["seen"])
        ctx.hit(op["op"])
        log_sig(ctx, r, op["custom"])


ALL = [C09, C10, C11, C17, C18, C20]
