"""Properties of a run against its surroundings: the caller's data, the history
file, the terminal, ambient randomness and the shape of the process."""
import os
import subprocess
import sys

from sim import core, execute, problems as P
from .base import Prop, clone, diff, fault_index, fmt, gen_fault, log_sig, num, problem, same_run, xs
from .session import gen_op

FS_KINDS = ["eacces", "emfile", "enospc", "eio", "torn", "short"]
OUT = ("outcome", "exc", "flag")


def gen_fs_plan(r, hi=60):
    plan = {}
    for _ in range(r.choice([1, 1, 2, 3])):
        a = r.choice([r.randint(0, 3), r.randint(0, 10), r.randint(0, hi)])
        key = r.choice(["%d" % a, "%d" % a, "%d-%d" % (a, a + r.choice([1, 3, 10])), "%d-" % a])
        plan[key] = r.choice(FS_KINDS)
    return plan


class C12(Prop):
    id = "C12"
    title = "The caller's data stay the caller's"
    quick_n, thorough_n = 900, 24000
    rule = ("arrays, lists and the options object handed in are compared byte by byte before and after runs that succeed, "
            "fail, are interrupted, or meet I/O and LAPACK faults; results of one run are compared before and after a later "
            "run; functions that modify their argument or return a reused buffer are compared with well-behaved ones, and "
            "read-only or strided arrays with plain ones; non-trivial always")

    def gen(self, r, i, tier):
        op = gen_op(r, tier)
        while op["op"] == "reject":
            op = gen_op(r, tier)
        s = op["problem"]
        if r.random() < 0.5:      # starts that have to be moved
            s["x0"] = [round(v * 3, 3) for v in s["x0"]]
        s["x0form"] = r.choice(["row2d", "col", "flat", "list", "int"])
        sc = {"op": op, "again": r.random() < 0.5}
        q = problem(r, nmax=3, noise=0.3, small=True)
        q["cb"] = {"mutate": r.choice([0, 1, 2]), "cret": r.choice(["buf", "arr", "col", "row", "tuple", "list"]),
                   "fret": r.choice(["np", "float", "arr0", "int"]), "noisy_print": r.random() < 0.2}
        if r.random() < 0.3:
            q["evalfaults"] = {str(fault_index(r, q["n"], 15)): gen_fault(r, q["me"] + q["mi"])}
        sc["problem"] = q
        sc["arrays"] = r.choice(["plain", "readonly", "strided", "fortran"])
        return sc

    def run(self, sc, ctx):
        op = sc["op"]
        s = op["problem"]
        n = s["n"]

        def snap(args, o):
            import numpy as np
            out = []
            for a in args:
                if isinstance(a, np.ndarray):
                    out.append((a.shape, str(a.dtype), a.tobytes(), str(a.flags)))
                else:
                    out.append(repr(a))
            out.append(P.show_options(o))
            return out

        def one():
            import sqpdfo  # noqa: F401
            sim = core.Sim(fs_plan=op.get("fs"), stdout_plan=op.get("stdout"), lapack_plan=op.get("lapack"),
                           async_plan=op.get("async"), step_limit=execute.STEP_LIMIT if not op.get("async") else 30_000_000)
            bb = P.BlackBox(s, sim)
            args, o = bb.args(), P.make_options(s.get("opts"), s.get("oform"))
            b4 = snap(args, o)
            r = {}
            try:
                with sim:
                    out = P.call_optimize(bb, opts=o, args=args)
            except core.StepLimit:
                return {"steplimit": "x", "evals": [], "log": []}
            af = snap(args, o)
            r = execute.observe(out, bb, sim)
            r.update(execute.sim_part(sim))
            names = ["x0", "lb", "ub", "options"]
            r["changed"] = [(nm, str(p)[:200], str(q)[:200]) for nm, p, q in zip(names, b4, af) if p != q]
            if sc["again"]:
                c1 = out.canon()
                sim2 = core.Sim(step_limit=execute.STEP_LIMIT)
                bb2 = P.BlackBox(s, sim2)
                try:
                    with sim2:
                        out2 = P.call_optimize(bb2, opts=o, args=args)
                except core.StepLimit:
                    return {"steplimit": "x", "evals": [], "log": []}
                r["kept"] = out.canon() == c1
                r["second"] = execute.observe(out2, bb2, sim2)
            return r
        r = ctx.book(ctx.fork(one), op["op"])
        if r.get("steplimit"):
            return
        ctx.check(not r["changed"], "changed", "%s run (flag %s, exception %s) changed %s" % (op["op"], r["flag"], r["exc"], r["changed"]))
        ctx.hit(op["op"])
        log_sig(ctx, r)
        if sc["again"]:
            ctx.check(r["kept"], "result", "the result of a run was changed by a later run")
            if not op.get("lapack") and not op.get("async") and not op.get("stdout") and not op.get("fs"):
                a = dict(r)
                same_run(ctx, a, r["second"], "reuse", "second run with the same objects", OUT)
                ctx.hit("second run with the same objects")
        q = sc["problem"]
        ref = ctx.run(clone(q, cb=None), "plain functions")
        b = ctx.run(q, "functions %s" % q["cb"])
        same_run(ctx, ref, b, "functions", "functions that behave like %s" % q["cb"], OUT)
        if sc["arrays"] != "plain":
            b = self.shaped(ctx, q, sc["arrays"])
            if b is not None:
                same_run(ctx, ref, b, "arrays", "%s arrays" % sc["arrays"], OUT)
                ctx.hit(sc["arrays"] + " arrays")

    def shaped(self, ctx, q, how):
        p = clone(q, cb=None)

        def f():
            import numpy as np
            sim = core.Sim(step_limit=execute.STEP_LIMIT)
            bb = P.BlackBox(p, sim)
            new = []
            for a in bb.args():
                if isinstance(a, np.ndarray):
                    if how == "readonly":
                        a = a.copy()
                        a.setflags(write=False)
                    elif how == "fortran":
                        a = np.asfortranarray(a)
                    else:
                        big = np.full(tuple(2 * k for k in a.shape), 99.0)
                        v = big[tuple(slice(0, None, 2) for _ in a.shape)]
                        v[...] = a
                        a = v
                new.append(a)
            try:
                with sim:
                    out = P.call_optimize(bb, args=tuple(new))
            except core.StepLimit:
                return {"steplimit": "x", "evals": []}
            r = execute.observe(out, bb, sim)
            r.update(execute.sim_part(sim))
            return r
        r = ctx.book(ctx.fork(f), how)
        return None if r.get("steplimit") else r


class C13(Prop):
    id = "C13"
    title = "Trouble with the history file or the terminal never changes the result"
    quick_n, thorough_n = 800, 24000
    rule = ("a reference run and runs of the same problem in which file operations fail once, for a while or from some "
            "point on (no permission, no handles, disk full, I/O error, torn or short writes, failing close), or terminal "
            "writes fail; non-trivial if a fault fired")

    def gen(self, r, i, tier):
        s = problem(r, nmax=3, noise=0.3, small=r.random() < 0.7)
        s["opts"]["verbose"] = r.choice([0, 1, 1, 2, 3, 4])
        if r.random() < 0.2:
            s["evalfaults"] = {str(fault_index(r, s["n"], 20)): gen_fault(r, s["me"] + s["mi"])}
        sc = {"problem": s, "plans": [gen_fs_plan(r) for _ in range(3)]}
        if r.random() < 0.6:
            sc["stdout"] = {str(int(10 ** r.uniform(0, 3)) - 1): r.choice(["epipe", "eio"])}
        return sc

    def run(self, sc, ctx):
        s = sc["problem"]
        ref = ctx.run(s, "no faults")
        for plan in sc["plans"]:
            r = ctx.run(s, "files %s" % plan, fs_plan=plan)
            what = "file faults %s: " % [o for o in r["fsops"] if o[2]][:3]
            if r["exc"] and not ref["exc"]:
                ctx.bad("raised", what + "optimize raised %s: %s" % r["exc"])
            same_run(ctx, ref, r, "differs", what, OUT)
            ctx.check(not r["leaks"], "leak", what + "left %s open" % r["leaks"])
            if any(o[2] for o in r["fsops"]):
                log_sig(ctx, r)
        if sc.get("stdout"):
            r = ctx.run(s, "terminal %s" % sc["stdout"], stdout_plan=sc["stdout"])
            at = [k for k, e in enumerate(r["log"]) if e[1] == "stdout"]
            if not at:
                return
            log_sig(ctx, r)
            if r["exc"] and not ref["exc"]:
                # the caller may get the error as it is, then the run is over
                ctx.check(r["exc"][0] in ("BrokenPipeError", "OSError"), "terminal", "terminal error surfaced as %s: %s" % r["exc"])
                after = [e for e in r["log"][at[0]:] if e[1].startswith("eval.")]
                ctx.check(not after, "terminal", "%d evaluations after a terminal error that was raised" % len(after))
                ctx.check(not r["leaks"], "leak", "terminal error left %s open" % r["leaks"])
                ctx.hit("terminal error raised")
            else:
                same_run(ctx, ref, r, "terminal", "terminal error", OUT)
                ctx.hit("terminal error survived")


HEADER = "function A=history"


def split_history(txt):
    """-> (header ok, rows as lists of numbers, closed, garbage)"""
    lines = txt.split("\n")
    if not txt:
        return None, [], False, None
    head = lines[0].strip() == HEADER
    rows, closed, bad = [], False, None
    for j, l in enumerate(lines[1:], 1):
        t = l.strip()
        if j == 1:
            head = head and t == "A=["
            continue
        if not t:
            continue
        if closed:
            bad = bad or (j, l)
        if t == "];":
            closed = True
            continue
        try:
            rows.append([float(v) for v in t.split()])
        except ValueError:
            bad = bad or (j, l)
    return head, rows, closed, bad


class C14(Prop):
    id = "C14"
    title = "The history file is complete and readable at every instant"
    quick_n, thorough_n = 1000, 30000
    rule = ("the durable content of the history file (below Python's buffers) is taken after every change and at every "
            "evaluation, that is, at every point at which killing the process could leave a different file; contents are "
            "compared with the evaluations made; problems with noise, failing evaluations, an older file in place; "
            "non-trivial if at least two rows were written")
    sig_measure = "the event log of the run"

    def gen(self, r, i, tier):
        s = problem(r, nmax=3, noise=0.3)
        s["opts"]["verbose"] = r.choice([1, 1, 2, 3, 3, 0, 4])
        if r.random() < 0.3:
            s["evalfaults"] = {str(fault_index(r, s["n"], 25)): gen_fault(r, s["me"] + s["mi"])}
        return {"problem": s, "old": r.choice([None, None, "garbage of another run\n", "function A=history \n A=[ \n 1 2 3\n];"])}

    def run(self, sc, ctx):
        s = sc["problem"]
        v = s["opts"]["verbose"]
        nc = s["me"] + s["mi"]

        def go():
            states = []

            def hook(k, which, x):
                if which == "f":
                    states.append(sims[0].fs.files.get("convhist.m"))
            sims = []
            real = core.Sim.__enter__

            def enter(self):
                sims.append(self)
                return real(self)
            core.Sim.__enter__ = enter
            try:
                r = execute.simulate(s, snapshots=True, hook=hook,
                                     files={"convhist.m": sc["old"]} if sc["old"] else None)
            finally:
                core.Sim.__enter__ = real
            r["states"] = [None if c is None else c.decode("latin1") for c in states]
            return r
        r = ctx.book(ctx.fork(go))
        if r.get("steplimit") or r["exc"]:
            return
        evat = [q for q, kind, d in r["log"] if kind == "eval.f"]
        final = r["files"].get("convhist.m", "")
        head, rows, closed, bad = split_history(final)
        ctx.check(head and not bad, "format", lambda: "the file is no readable history: %r" % (bad or final[:60],))
        ctx.check(closed, "closed", "the history was not closed (flag %s)" % r["flag"])
        ctx.check(not r["leaks"], "leak", "left %s open" % r["leaks"])
        others = set(r["files"]) - {"convhist.m"}
        ctx.check(not others, "files", "other files written: %s" % others)
        # every durable state is a readable beginning of the final file
        for seq, path, c in r["snaps"]:
            if path != "convhist.m" or c is None:
                continue
            made = sum(1 for q in evat if q <= seq)
            h, rw, cl, b = split_history(c)
            if h is None:
                ctx.check(made == 0, "lost", "the history was emptied after %d evaluations" % made)
                continue
            ctx.check(h and not b, "torn", lambda: "after %d evaluations a crash would leave an unreadable file: %r" % (made, b or c[:60]))
            ctx.check(str(rw) == str(rows[:len(rw)]), "rewritten", "rows of the history were changed later")
            if rw and not cl:
                ctx.check(int(rw[-1][1]) == made, "count", "a row written after %d evaluations says %d" % (made, int(rw[-1][1])))
        # a crash during evaluation k leaves every row that was due before it
        for k, c in enumerate(r["states"]):
            if k == 0 and c is None:
                continue
            h, rw, cl, b = split_history(c or "")
            due = [q for q in rows if int(q[1]) <= k]
            ctx.check(str(rw) == str(due), "durable", "a crash during evaluation %d leaves %d rows, %d were due" % (k, len(rw), len(due)))
            ctx.check(not cl and (h or k == 0), "durable", "a crash during evaluation %d leaves a file that is closed or has no header" % k)
        if not 1 <= v < 4:
            return
        last_n = last_it = 0
        for j, row in enumerate(rows):
            ctx.check(len(row) == (6 if nc else 5), "columns", "row %d has %d columns" % (j, len(row)))
            it, ne, f = int(row[0]), int(row[1]), row[2]
            ctx.check(ne >= last_n, "order", "row %d: evaluation count falls from %d to %d" % (j, last_n, ne))
            ctx.check(it - last_it in (0, 1), "order", "row %d: iteration %d after %d" % (j, it, last_it))
            last_n, last_it = ne, it
            seen = [e["f"] for e in r["evals"][:ne] if num(e["f"])]
            ctx.check(any(close8(f, g) for g in seen), "foreign", "row %d: %.9g is no value of the objective among the first %d evaluations" % (j, f, ne))
        if rows:
            ctx.check(int(rows[-1][0]) <= r["niter"], "order", "last row is iteration %d of %d" % (rows[-1][0], r["niter"]))
            ctx.hit("rows", len(rows))
            if r["flag"] != 3:
                ctx.check(int(rows[-1][1]) == r["nsimul"], "last", "last row says %d evaluations, %d were made (flag %s)" % (rows[-1][1], r["nsimul"], r["flag"]))
                ctx.check(close8(rows[-1][2], r["f"]), "last", "last row has f = %.9g, returned %.9g (flag %s)" % (rows[-1][2], r["f"], r["flag"]))
                ctx.check(abs(int(rows[-1][0]) - r["niter"]) <= 1, "last", "last row is iteration %d of %d" % (rows[-1][0], r["niter"]))
        ctx.hit("flag %s" % r["flag"])
        if len(rows) >= 2:
            log_sig(ctx, r)


def close8(a, b):
    return a == float("%+14.8e" % b) or abs(a) >= 1e25 <= abs(b) or a == b


class C15(Prop):
    id = "C15"
    title = "Verbosity changes what is printed, nothing else"
    quick_n, thorough_n = 450, 16000
    rule = ("one problem (with noise and failing evaluations) run with each of several verbosity levels 0 to 6, and without "
            "the option, and with levels that do not exist; points, results and flags are compared; non-trivial if two levels that print differently were run")

    def gen(self, r, i, tier):
        s = problem(r, noise=0.3, small=r.random() < 0.5)
        for _ in range(r.choice([0, 0, 1])):
            s["evalfaults"] = {str(fault_index(r, s["n"], 30)): gen_fault(r, s["me"] + s["mi"])}
        vs = r.sample([0, 1, 2, 3, 4, 5, 6, None, r.choice([-1, 7, 1000])], 4)
        return {"problem": s, "verbosities": vs}

    def run(self, sc, ctx):
        ref = first = None
        for v in sc["verbosities"]:
            q = clone(sc["problem"])
            q["opts"] = dict(q["opts"])
            q["opts"].pop("verbose", None)
            if v is not None:
                q["opts"]["verbose"] = v
            r = ctx.run(q, "verbose=%s" % v)
            if r["exc"]:
                ctx.bad("raised", "verbose=%s raised %s: %s" % (v, r["exc"][0], r["exc"][1]))
            if ref is None:
                ref, first = r, v
                continue
            same_run(ctx, ref, r, "differs", "verbose=%s instead of %s" % (v, first), OUT)
            if r["stdout"] != ref["stdout"]:
                log_sig(ctx, r, [v])


SURROUND = ["salt", "gc", "thread", "heap", "printoptions", "optorder", "cwd", "hashseed", "filters", "deep"]


class C16(Prop):
    id = "C16"
    title = "A run is a function of its arguments and the answers it gets"
    quick_n, thorough_n = 450, 16000
    rule = ("one problem run in several surroundings: other ambient random numbers, clocks and process ids, collector after "
            "every allocation, a thread instead of the main thread, other heap layout, a deep call stack, other print "
            "options, other order of option attributes, a fresh interpreter with another hash seed; points, results, "
            "output and history compared; non-trivial always")

    def gen(self, r, i, tier):
        s = problem(r, noise=0.3, small=r.random() < 0.5)
        if r.random() < 0.3:
            s["evalfaults"] = {str(fault_index(r, s["n"], 30)): gen_fault(r, s["me"] + s["mi"])}
        kinds = ["salt"] + r.sample(SURROUND[1:7] + ["filters", "deep"], 2)
        if i % 12 == 0:
            kinds.append("hashseed")
        return {"problem": s, "salts": [{"kind": k, "salt": r.randrange(1, 10 ** 6)} for k in kinds]}

    def run(self, sc, ctx):
        s = sc["problem"]
        ref = ctx.run(s, "reference")
        log_sig(ctx, ref)
        ctx.hit("ambient reads in the reference", ref["entropy_reads"])
        for v in sc["salts"]:
            k, salt = v["kind"], v["salt"]
            if k == "hashseed":
                r = self.fresh(s, salt)
                r and ctx.book(r, k)
            else:
                r = ctx.book(ctx.fork(lambda: self.around(k, salt, s)), k)
            ctx.hit(k)
            if not r or r.get("steplimit"):
                ctx.bad("differs", "%s: the run does not end" % k)
            same_run(ctx, ref, r, "differs", "surroundings %s (%d)" % (k, salt), OUT + ("stdout", "files"))

    def around(self, k, salt, s):
        import gc
        import random
        import threading
        import warnings
        import numpy as np
        if k == "salt":
            random.seed(salt)
            np.random.seed(salt)
            return execute.simulate(s, salt=salt)
        if k == "gc":
            if salt % 2:
                gc.disable()
            else:
                gc.set_threshold(1 + salt % 50)
        elif k == "heap":
            rr = random.Random(salt)
            self.keep = [bytearray(rr.randrange(1, 5000)) for _ in range(rr.randrange(10, 3000))]
            self.keep += [np.empty(rr.randrange(1, 400)) for _ in range(200)]
            for a in self.keep[-200:]:
                a.fill(np.nan)
            del self.keep[-200::2]
        elif k == "printoptions":
            np.set_printoptions(suppress=True) if False else None
            np.seterr(all="ignore")
        elif k == "cwd":
            os.chdir("/")
        elif k == "filters":
            warnings.simplefilter("ignore" if salt % 2 else "always")
        elif k == "optorder":
            rr = random.Random(salt)
            o = list((s["opts"] or {}).items())
            rr.shuffle(o)
            s = clone(s)
            s["opts"] = dict(o)
        elif k == "deep":
            def down(d):
                return execute.simulate(s) if d == 0 else down(d - 1)
            return down(20 + salt % 300)
        elif k == "thread":
            box = []
            t = threading.Thread(target=lambda: box.append(execute.simulate(s)))
            t.start()
            t.join()
            return box[0]
        return execute.simulate(s, salt=salt)

    def fresh(self, s, salt):
        import json
        code = ("import sys,os,json,pickle;sys.dont_write_bytecode=True;sys.pycache_prefix='/nonexistent/verif-no-pyc';"
                "sys.path[:0]=%r;import sqpdfo;import numpy.linalg,scipy.linalg;import sqpdfo.simhooks as h;h.enabled=False;"
                "from sim import execute;"
                "r=execute.simulate(json.loads(sys.stdin.read()),salt=%d);"
                "os.write(1,pickle.dumps(r))" % (sys.path[:2], salt))
        env = dict(os.environ, PYTHONHASHSEED=str(salt), VERIF_CHILD="1")
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], input=json.dumps(s).encode(), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        if p.returncode:
            raise core.HarnessError(p.stderr.decode()[-800:])
        import pickle
        return pickle.loads(p.stdout)


ALL = [C12, C13, C14, C15, C16]
