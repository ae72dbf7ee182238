"""One simulated execution of the library, in a forked child of a pristine process."""
import math
import os
import pickle
import select
import signal
import struct
import sys
import time

STEP_LIMIT = 6_000_000
WALL_LIMIT = 240.0


class WallTimeout(Exception):
    pass


class ChildDied(Exception):
    pass


FORKS = [0]


def fork_call(fn, wall=WALL_LIMIT):
    """run fn() in a forked child; returns its (picklable) result"""
    FORKS[0] += 1
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = (True, fn())
            except BaseException as e:
                import traceback
                res = (False, "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
            data = pickle.dumps(res, protocol=4)
            with os.fdopen(w, "wb") as fh:
                fh.write(struct.pack(">Q", len(data)))
                fh.write(data)
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    deadline = time.monotonic() + wall
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                raise WallTimeout("child exceeded %g s" % wall)
            rd, _, _ = select.select([r], [], [], left)
            if rd:
                chunk = os.read(r, 1 << 20)
                if not chunk:
                    break
                buf += chunk
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if len(buf) < 8 or len(buf) - 8 != struct.unpack(">Q", buf[:8])[0]:
        raise ChildDied("simulated process died without a report")
    ok, res = pickle.loads(buf[8:])
    if not ok:
        from .core import HarnessError
        raise HarnessError("in child: " + res)
    return res


def _ce(info):
    import numpy as np
    ce = getattr(info, "ce", None)
    if ce is None:
        return None
    return [float(v) for v in np.asarray(ce, dtype=float).ravel()]


def observe(out, bb, sim, args=None):
    """plain-data account of one finished run"""
    import numpy as np
    rec = bb.rec
    r = {"exc": out.exc, "exc_where": getattr(out, "exc_where", None),
         "flag": None, "evals": rec.evals, "ncalls": len(rec.calls),
         "calls": rec.calls, "bad_args": rec.bad_args, "after_close": rec.after_close,
         "outcome": out.canon()}
    if out.exc is None:
        i = out.info
        r["flag"] = out.flag()
        try:
            r["x"] = [float(v) for v in np.asarray(out.x, dtype=float).ravel()]
            r["xshape"] = list(np.shape(out.x))
        except Exception:
            r["x"], r["xshape"] = None, None
        r["lmshape"] = list(np.shape(out.lm))
        r["lm"] = [float(v) for v in np.asarray(out.lm, dtype=float).ravel()]
        for k in ("f", "glagn", "feasn", "compl", "niter"):
            v = getattr(i, k, None)
            r[k] = None if v is None else float(np.asarray(v, dtype=float).ravel()[0])
        ns = getattr(i, "nsimul", None)
        r["nsimul"] = None if ns is None or np.size(ns) < 2 else int(ns[1])
        r["ce"] = _ce(i)
    return r


def sim_part(sim):
    return {"stdout": sim.out.text(), "files": {k: v.decode("latin1") for k, v in sim.fs.files.items()},
            "fsops": sim.fs.ops, "snaps": [(s, p, None if c is None else c.decode("latin1")) for s, p, c in sim.fs.snaps],
            "leaks": sorted({h.path for h in sim.fs.handles}), "log": sim.log, "faults": dict(sim.fault_counts),
            "steps": sim.clock.ticks if sim.clock is not None else 0,
            "positions": sim.clock.positions() if sim.clock is not None else [],
            "lapack_calls": sim.lapack.n, "writes": sim.out.n,
            "async_fired": sim.async_fired, "entropy_reads": sim.entropy.n}


def _probe(bb, bad, count):
    """C19: everything the models are built from is something the black box said"""
    import numpy as np
    nc = bb.nc

    def same(a, b):
        return float(a) == float(b)

    def probe(name, v):
        if name != "iteration":
            return
        count[0] += 1
        by = {}
        for e in bb.rec.evals:
            by.setdefault(e["x"], []).append(e)
        Y = np.asarray(v["Y"], dtype=float)
        fY = np.asarray(v["fY"], dtype=float).ravel()
        ind = v.get("indfree")
        full = (len(ind) if ind is not None else bb.n) == bb.n

        def look(t):
            if full:
                return by.get(t, [])
            free = [int(k) for k in np.asarray(ind).ravel()]
            return [e for x, es in by.items() if tuple(x[k] for k in free) == t for e in es]
        big = 1e25

        def cok(col, e):
            c = e.get("c")
            if not isinstance(c, tuple):
                return False
            for a, b in zip(col, c):
                if abs(b) >= big:
                    if not (a * b > 0 and abs(a) >= 1.0):
                        return False
                elif not same(a, b):
                    return False
            return True

        def fok(a, e):
            return isinstance(e["f"], (int, float)) and (same(a, e["f"]) or (e["f"] > 1e25 and a >= 1e25))
        for j in range(Y.shape[1]):
            t = tuple(float(q) for q in Y[:, j])
            es = look(t)
            if not es:
                bad.append(("model point %d was never evaluated" % j, t))
                break
            if not any(fok(fY[j], e) for e in es):
                bad.append(("objective value of model point %d is not what the black box returned there" % j, t, float(fY[j])))
                break
            if nc and not any(cok(np.asarray(v["ceY"], dtype=float)[:, j], e) for e in es):
                bad.append(("constraint values of model point %d are not what the black box returned there" % j, t))
                break
        t = tuple(float(q) for q in np.asarray(v["x"], dtype=float).ravel())
        es = look(t)
        if not es:
            bad.append(("current iterate was never evaluated", t))
        elif not any(fok(v["f"], e) for e in es):
            bad.append(("current value is not what the black box returned at the iterate", t, float(v["f"])))
        elif nc and not any(cok(np.asarray(v["ce"], dtype=float).ravel(), e) for e in es):
            bad.append(("current constraint values are not what the black box returned at the iterate", t))
    return probe


def monomials(X, q):
    """natural basis, written independently of the package"""
    import numpy as np
    n, m = X.shape
    rows = [np.ones(m)] + [X[i] for i in range(n)] + [0.5 * X[i] ** 2 for i in range(n)]
    for k in range(1, n):
        rows += [X[i + k] * X[i] for i in range(n - k)]
    return np.array(rows)[:q]


def condition(v, frob):
    """condition of the system the models are built from, None if nearly singular"""
    import numpy as np
    Y = np.asarray(v["Y"], dtype=float)
    n, p1 = Y.shape
    sc = np.asarray(v["scale"], dtype=float).ravel()
    x = np.asarray(v["x"], dtype=float).reshape(-1, 1)
    z = monomials((Y - x) * sc[1] if v["shift_Y"] else Y, np.shape(v["fcmodel"])[1])
    A = z
    if frob and p1 < (n + 1) * (n + 2) // 2:
        A = z[:n + 1]
        if p1 > n + 1:
            A = np.block([[z[n + 1:].T @ z[n + 1:], z[:n + 1].T], [z[:n + 1], np.zeros((n + 1, n + 1))]])
    if not np.isfinite(A).all():
        return None
    sv = np.linalg.svd(A, compute_uv=False)
    if sv[0] == 0 or sv[-1] <= sv[0] * 1e-12:
        return None
    return float(sv[0] / sv[-1])


def _fit_probe(bb, bad, count):
    """C21: the models in use fit the data in use"""
    import numpy as np
    eps = 2.3e-16
    frob = str((bb.spec.get("opts") or {}).get("whichmodel", "")).lower() == "frobnorm"

    def probe(name, v):
        if name != "iteration" or v.get("fcmodel") is None:
            return
        M = np.asarray(v["fcmodel"], dtype=float)
        Y = np.asarray(v["Y"], dtype=float)
        if M.ndim != 2 or Y.ndim != 2:
            return
        n, p1 = Y.shape
        q = M.shape[1]
        sc = np.asarray(v["scale"], dtype=float).ravel()
        x = np.asarray(v["x"], dtype=float).reshape(-1, 1)
        z = monomials((Y - x) * sc[1] if v["shift_Y"] else Y, q)
        ce = np.asarray(v["ceY"], dtype=float)
        vals = [np.asarray(v["fY"], dtype=float).ravel()] + (list(ce) if bb.nc and ce.ndim == 2 else [])
        if len(vals) > M.shape[0]:
            bad.append(("there are %d models for %d functions" % (M.shape[0], len(vals)),))
            return
        cond = condition(v, frob)
        if cond is None:
            count[1] += 1
            return
        sv = np.linalg.svd(z, compute_uv=False)
        count[0] += 1
        for j, val in enumerate(vals):
            big = float(np.max(np.abs(val)))
            if big == 0 or not np.isfinite(big):
                continue
            r = M[j] @ z - val
            if p1 <= q:
                err = float(np.max(np.abs(r))) / big
                what = "misses its values"
            else:        # regression: least squares
                err = float(np.max(np.abs(z @ r))) / (sv[0] * big)
                what = "is not the least-squares fit"
            if not err <= 1e-8 + 1e4 * eps * cond:
                bad.append(("model of %s %s by %.2g (relative; condition %.1g, %d points, iteration %s)"
                            % ("the objective" if j == 0 else "constraint %d" % (j - 1), what, err, cond, p1, v["niter"]),))
                return
    return probe


def _deriv_probe(bb, bad, count):
    """C25: gradients, Jacobian and Hessian in use are those of the models in use"""
    import numpy as np
    o = bb.spec.get("opts") or {}
    bfgs = str(o.get("hess_approx", "")).lower().replace(" ", "") == "bfgs"
    frob = str(o.get("whichmodel", "")).lower().replace(" ", "") == "frobnorm"
    l2 = str(o.get("whichmodel", "")).lower().replace(" ", "") in ("l2norm", "regression")

    top, ill = [1.0], []

    def hess(c, n, s):
        H = np.zeros((n, n))
        c = list(c[n + 1:])
        for i in range(n):
            if c:
                H[i, i] = c.pop(0)
        for k in range(1, n):
            for i in range(n - k):
                if c:
                    H[i, i + k] = H[i + k, i] = c.pop(0)
        return H * s * s

    def probe(name, v):
        if name != "iteration" or v.get("fcmodel") is None or v.get("g") is None:
            return
        P = np.asarray(v["fcmodel"], dtype=float)
        x = np.asarray(v["x"], dtype=float).ravel()
        n = len(x)
        sc = np.asarray(v["scale"], dtype=float).ravel()
        s = sc[1] if v["shift_Y"] else None
        if s is None or not np.isfinite(P).all():
            return
        count[0] += 1
        D = P[:, 1:n + 1] * s

        def cmp(got, want, what):
            got = np.asarray(got, dtype=float)
            tol = 1e-9 * (np.max(np.abs(want)) + np.max(np.abs(got), initial=0.0)) + 1e-300
            if got.shape != want.shape or not (np.abs(got - want) <= tol).all():
                bad.append(("%s in use is %s, that of the model is %s (iteration %s)"
                            % (what, got.tolist(), want.tolist(), v["niter"]),))
                return False
            return True
        if not cmp(np.asarray(v["g"], dtype=float).ravel(), D[0], "the gradient"):
            return
        if bb.nc and not cmp(np.atleast_2d(np.asarray(v["ae"], dtype=float)), D[1:bb.nc + 1], "the Jacobian"):
            return
        M = np.asarray(v["M"], dtype=float)
        if M.shape != (n, n) or not np.isfinite(M).all():
            bad.append(("the Hessian is %s (iteration %s)" % (M.tolist(), v["niter"]),))
            return
        big = np.max(np.abs(M))
        if not (np.abs(M - M.T) <= 1e-9 * big).all():
            bad.append(("the Hessian is not symmetric: %s (iteration %s)" % (M.tolist(), v["niter"]),))
            return
        if bfgs:
            e = np.linalg.eigvalsh(M)
            top[0] = max(top[0], float(e[-1]))
            if not ill and e[0] < -1e-8 * top[0]:
                bad.append(("the BFGS Hessian is not positive definite: eigenvalues %.3g to %.3g (iteration %s)" % (e[0], e[-1], v["niter"]),))
                return
            if e[0] <= 1e-9 * e[-1]:      # from here on rounding decides
                ill.append(1)
            else:
                count[1] += 1
        if bfgs or np.array_equal(M, np.eye(n)):     # not updated yet
            return
        Hs = [hess(c, n, s) for c in P[:bb.nc + 1]]
        R = M - Hs[0]
        size = big + max(np.max(np.abs(h)) for h in Hs)
        if bb.nc:
            # some combination of the constraints' Hessians (the multipliers may have
            # been recomputed since); slacks add a constant, which minimum-norm models
            # do not reproduce exactly
            if bb.nc + (1 if bb.spec["mi"] else 0) >= n * (n + 1) // 2 or (bb.spec["mi"] and l2):
                return
            B = np.array([h.ravel() for h in Hs[1:]]).T
            lam = np.linalg.lstsq(B, R.ravel(), rcond=1e-14)[0]
            R = (R.ravel() - B @ lam).reshape(n, n)
            size += float(np.max(np.abs(B)) * np.max(np.abs(lam)))
        # rounding: what the condition of the interpolation set allows
        cond = condition(v, frob)
        if cond is None:
            return
        vals = np.max(np.abs(np.asarray(v["fY"], dtype=float)))
        if bb.nc:
            vals += float(np.max(np.abs(np.asarray(v["ceY"], dtype=float))) * (1 + np.max(np.abs(lam))))
        tol = 1e-6 * size + 1e5 * 2.3e-16 * cond * vals * s * s + 1e-300
        if not (np.abs(R) <= tol).all():
            bad.append(("the Hessian in use is %s, the models give %s (iteration %s)"
                        % (M.tolist(), (M - R).tolist(), v["niter"]),))
            return
        count[1] += 1
    return probe


def _budget_probe(bb, bad, count):
    """C08: an iteration that starts with a used-up budget evaluates nothing"""
    o = bb.spec.get("opts") or {}
    mark = []

    def probe(name, v):
        if name != "iteration":
            return
        finish()
        if mark:
            bad.append(("iteration %s was followed by another although %s" % (mark[0][1], mark[0][2]),))
            del mark[:]
        k = len(bb.rec.evals)
        count[0] += 1
        if o.get("msimul") is not None and k >= o["msimul"]:
            mark.append((k, v["niter"], "%d of %d evaluations had been made" % (k, o["msimul"])))
        elif o.get("miter") is not None and v["niter"] >= o["miter"]:
            mark.append((k, v["niter"], "the %d iterations had been used up" % o["miter"]))

    def finish():
        if mark and len(bb.rec.evals) > mark[0][0]:
            bad.append(("%d evaluations were made in iteration %s although %s"
                        % (len(bb.rec.evals) - mark[0][0], mark[0][1], mark[0][2]),))
            del mark[:]
    probe.finish = finish
    return probe


def _ball_minimum(g, ev, d):
    """smallest value of g's + 1/2 sum ev s^2 within |s| <= d"""
    import numpy as np

    def length(lam):
        with np.errstate(all="ignore"):
            w = np.where(g == 0, 0.0, g / np.maximum(ev + lam, 0.0))
        return float(np.linalg.norm(w))

    def value(lam):
        with np.errstate(all="ignore"):
            w = -np.where(g == 0, 0.0, g / (ev + lam))
        k = np.linalg.norm(w)
        w = w * min(1.0, d / k) if k > 0 else w
        return float(g @ w + 0.5 * ev @ (w * w))
    low = max(0.0, -float(ev[0]))
    if ev[0] > 0 and length(0.0) <= d:
        return value(0.0)
    high = low + float(np.linalg.norm(g)) / d
    for _ in range(200):
        mid = (low + high) / 2
        if length(mid) > d:
            low = mid
        else:
            high = mid
    return value(high)


def _judge_constrained(s, size, d, g, M, c, A, tol, count):
    """equations only, no bound within reach, independent constraint gradients"""
    import numpy as np
    m, n = A.shape
    if m > n or not (np.isfinite(A).all() and np.isfinite(c).all() and np.isfinite(M).all() and np.isfinite(g).all()):
        return
    sv = np.linalg.svd(A, compute_uv=False)
    if sv[-1] <= 1e-2 * max(sv[0], 1.0):
        return
    count[1] += 1
    P = np.linalg.pinv(A)
    c0, c1 = float(np.linalg.norm(c)), float(np.linalg.norm(c + A @ s))
    ns = float(np.linalg.norm(s))
    eps = 1e-9 * sv[0] * ns + 1e-14 * sv[0] * size + 1e-9
    if not c1 <= c0 * (1 + 1e-6) + eps:
        return "the trial step increases the linearised constraints from %.6g to %.6g (radius %.3g)" % (c0, c1, d)
    need = float(np.linalg.norm(P @ c))
    if np.linalg.norm(A.T @ c) > 1e-3 and c0 > 1e-6 and 1e-7 + 1e-10 * size < need < 0.5 * d and not c1 <= 0.1 * c0 + eps:
        return ("the trial step leaves the linearised constraints at %.6g (%.6g before it), a step of length %.3g satisfies them (radius %.3g)"
                % (c1, c0, need, d))
    if m == n or np.linalg.norm(A.T @ c) > 0.9e-6:
        return      # (restoration steps may drift along the constraints: the normal matrix is singular)
    M = (M + M.T) / 2
    t = s - P @ (A @ s)
    p = g - P @ (A @ g)
    q = float(g @ t + 0.5 * t @ M @ t)
    k, np_, nM = float(p @ M @ p), float(np.linalg.norm(p)), float(np.linalg.norm(M))
    if np_ < tol or np_ < 1e-6 * np.linalg.norm(g) or np_ < 1e-13 * nM * size:
        return
    k /= np_ ** 2
    if abs(k) < 1e-6 * nM:
        return      # cancellation
    al = min(d, np_ / k) if k > 0 else d
    best = -al * np_ + 0.5 * al * al * k
    slack = 1e-6 * (np.linalg.norm(g) * d + nM * d * d) + 1e-10 + 1e-13 * size * (np.linalg.norm(g) + nM * d)
    if not q <= 0.5 * best + slack:
        return ("along the constraints the trial step promises a decrease of %.6g, a projected gradient step %.6g (radius %.3g)"
                % (-q, -best, d))


def _trial_probe(bb, bad, count):
    """C27: every trial step stays in the trust region and the bounds and is as good as it can be there"""
    import numpy as np
    free_problem = bb.nc == 0
    slacks = bool(bb.spec.get("mi"))
    cgtol = max(1e-4, bb.spec.get("opts", {}).get("tol_grad") or 0.0)   # the tangential solver stops at a tenth of it

    def probe(name, v):
        if name != "trial" or bad:
            return
        fr = [int(k) for k in np.asarray(v["indfree"]).ravel()]
        lo = np.asarray(v["lb"], dtype=float).ravel()[fr]
        up = np.asarray(v["ub"], dtype=float).ravel()[fr]
        x = np.asarray(v["x"], dtype=float).ravel()
        y = np.asarray(v["xplus"], dtype=float).ravel()
        s, d = y - x, float(np.squeeze(v["delta"]))
        if not (np.isfinite(y).all() and len(y) == len(fr)):
            bad.append(("the trial point is %s" % y.tolist(),))
            return
        count[0] += 1
        for j, k in enumerate(fr):
            tol = 1e-7 * max(1.0, abs(y[j]))
            if not lo[j] - tol <= y[j] <= up[j] + tol:
                bad.append(("trial point outside the bounds: x[%d] = %.17g, [%g, %g] (radius %.3g)" % (k, y[j], lo[j], up[j], d),))
                return
        ns = float(np.linalg.norm(s))
        size = float(np.linalg.norm(x))
        # restoration and tangential step are limited separately in constrained problems
        # and components closer than 1e-5 to their bounds are moved onto them
        snap = 1.01e-5 * math.sqrt(len(fr)) if np.isfinite(lo[lo > -1e19]).any() or np.isfinite(up[up < 1e19]).any() else 0.0
        limit = (1.0 if free_problem else 2.0) * d * (1 + 1e-6) + snap + 1e-7 * (0 if free_problem else 1) + 1e-12 * size
        if not ns <= limit:
            bad.append(("trial step of length %.6g, the trust region has radius %.6g" % (ns, d),))
            return
        g = np.asarray(v["g"], dtype=float).ravel()
        M = np.asarray(v["M"], dtype=float)
        if not free_problem:
            if not slacks and (x - lo > 2 * d + snap).all() and (up - x > 2 * d + snap).all():
                msg = _judge_constrained(s, size, d, g, M, np.asarray(v["ce"], dtype=float).ravel(), np.asarray(v["ae"], dtype=float), cgtol, count)
                if msg:
                    bad.append((msg,))
            return
        ng, nM = float(np.linalg.norm(g)), float(np.linalg.norm(M))
        if not (np.isfinite(nM) and np.isfinite(ng)) or ng < 1.1e-6:
            return      # gradients below 1e-6 count as zero
        M = (M + M.T) / 2
        q = float(g @ s + 0.5 * s @ M @ s)
        ev, V = np.linalg.eigh(M)
        slack = 1e-8 * (ng * d + nM * d * d) + 1e-12 + 1e-13 * size * (ng + nM * d)
        if (x - lo > d + snap).all() and (up - x > d + snap).all():
            # no bound within reach: the minimiser over the trust region, from the eigenvalues
            best = _ball_minimum(V.T @ g, ev, d)
            if q > 0.99 * best + slack:
                bad.append(("the trial step promises a decrease of %.6g, the best step inside the trust region %.6g (radius %.3g)"
                            % (-q, -best, d),))
            count[1] += 1
            return
        if not s.any():
            # the solver for bounds gives up after 100 trial multipliers, says so and returns no step
            count.append(0)
            return
        if ev[0] < 1e-8 * ev[-1]:
            return      # with bounds and negative curvature the solver promises nothing
        if not q <= slack + snap * np.linalg.norm(g + M @ s):
            bad.append(("the trial step increases the convex model by %.6g (radius %.3g)" % (q, d),))
            return
        count[1] += 1
    return probe


PROBES = {"fit": _fit_probe, "deriv": _deriv_probe, "budget": _budget_probe, "trial": _trial_probe}


def simulate(spec, fs_plan=None, stdout_plan=None, lapack_plan=None, salt=0, step_limit=STEP_LIMIT,
             async_plan=None, snapshots=False, clock=None, probe=False, hook=None, files=None,
             before=None, after=None, fast=False, poll=None):
    """in the current process; returns the account (StepLimit is reported, not raised)"""
    from . import core, problems
    sim = core.Sim(fs_plan=fs_plan, stdout_plan=stdout_plan, lapack_plan=lapack_plan, salt=salt,
                   clock=clock, step_limit=None if fast else step_limit, async_plan=async_plan,
                   snapshots=snapshots)
    if files:
        sim.fs.files.update({k: v.encode("latin1") for k, v in files.items()})
    bb = problems.BlackBox(spec, sim, hook=hook)
    bad, count = [], [0, 0]
    if probe:
        import sqpdfo.simhooks as H
        H.probe = PROBES.get(probe, _probe)(bb, bad, count)
        H.enabled = True
    args = bb.args()
    opts = problems.make_options(spec.get("opts"), spec.get("oform"))
    b4 = before(args, opts) if before else None
    try:
        with sim:
            out = problems.call_optimize(bb, opts=opts, args=args)
    except core.StepLimit as e:
        return {"steplimit": str(e), "evals": bb.rec.evals, "exc": None, "flag": None,
                "steps": sim.clock.ticks, "faults": dict(sim.fault_counts), "outcome": {"exc": "StepLimit"}}
    finally:
        if probe:
            finish = getattr(H.probe, "finish", None)
            H.probe = None
            H.enabled = False
            if finish:
                finish()
    r = observe(out, bb, sim)
    r.update(sim_part(sim))
    r["probe_bad"], r["probe_count"], r["probe_skipped"], r["probe_other"] = bad, count[0], count[1], len(count) - 2
    if after:
        r["after"] = after(b4, args, opts, out)
    return r


def run_one(spec, **kw):
    """simulate() in a fresh forked process"""
    return fork_call(lambda: simulate(spec, **kw))


def core_warm():
    """touch the seams once, so that lazy imports do not show up as changes"""
    from . import core
    import uuid  # noqa: F401
    with core.Sim():
        pass
