"""Seeded search: worker pool, accounting, minimisation, replay, evidence."""
import copy
import json
import mmap
import os
import pickle
import random
import select
import struct
import subprocess
import sys
import time

from .core import HarnessError, digest
from . import execute

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__(kind, msg)
        self.kind, self.msg = kind, msg


class Inconclusive(Exception):
    """this scenario cannot decide the property (e.g. the run hit the simulated
    step budget, which is another property's business)"""


class Ctx:
    """handed to a property's run(): executes simulations and keeps the books"""

    def __init__(self):
        self.execs = 0
        self.steps = 0
        self.evals = 0
        self.faults = {}
        self.sigs = []
        self.reach = {}
        self.trace = []

    def book(self, r, label=""):
        if not isinstance(r, dict):
            return r
        self.execs += 1
        self.steps += r.get("steps", 0) or 0
        self.evals += len(r.get("evals", ()))
        for k, v in (r.get("faults") or {}).items():
            self.faults[k] = self.faults.get(k, 0) + v
        self.trace.append({"run": label or str(len(self.trace)), "flag": r.get("flag"), "exc": r.get("exc"),
                           "evaluations": len(r.get("evals", ())), "faults": r.get("faults"),
                           "steps": r.get("steps"), "log": digest(r.get("log"))})
        return r

    def run(self, spec, label="", **kw):
        r = self.book(execute.run_one(spec, **kw), label)
        if r.get("steplimit"):
            raise Inconclusive("step limit")
        return r

    def try_run(self, spec, label="", **kw):
        return self.book(execute.run_one(spec, **kw), label)

    def fork(self, fn):
        return execute.fork_call(fn)

    def sig(self, *parts):
        self.sigs.append(digest(parts))

    def hit(self, label, n=1):
        self.reach[label] = self.reach.get(label, 0) + n

    def bad(self, kind, msg):
        raise Violation(kind, msg)

    def check(self, cond, kind, msg):
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)


def evaluate(prop, sc):
    """-> (ctx, violation or None, status)"""
    ctx = Ctx()
    try:
        prop.run(sc, ctx)
        return ctx, None, "ok"
    except Violation as v:
        return ctx, v, "violation"
    except Inconclusive as e:
        return ctx, None, "inconclusive: %s" % e


# ----------------------------------------------------------------- minimisation
DROP_KEYS = ("noise", "cb", "evalfaults", "half", "bform", "x0form", "oform", "lim", "lapack", "fs", "stdout", "async", "pass_c")
PLAN_KEYS = ("evalfaults", "lapack", "fs", "stdout", "async")
LIST_KEYS = ("ops", "segments", "fracs", "ks", "points", "verbosities", "salts", "inners")


def _walk(o, path=()):
    yield path, o
    if isinstance(o, dict):
        for k in list(o):
            yield from _walk(o[k], path + (k,))
    elif isinstance(o, list):
        for i in range(len(o)):
            yield from _walk(o[i], path + (i,))


def _get(o, path):
    for p in path:
        o = o[p]
    return o


def _edit(sc, path, fn):
    c = copy.deepcopy(sc)
    fn(_get(c, path))
    return c


def _is_spec(o):
    return isinstance(o, dict) and "x0" in o and "obj" in o


def candidates(sc):
    # big cuts first
    for path, o in _walk(sc):
        key = path[-1] if path else None
        if isinstance(o, list) and key in LIST_KEYS and len(o) > 1:
            h = len(o) // 2
            if len(o) > 3:
                yield _edit(sc, path, lambda l: l.__delitem__(slice(0, h)))
                yield _edit(sc, path, lambda l: l.__delitem__(slice(h, None)))
            for i in range(len(o)):
                yield _edit(sc, path, lambda l, i=i: l.__delitem__(i))
        if isinstance(o, list) and key == "ops" and len(o) == 1:
            yield _edit(sc, path, lambda l: l.clear())
    for path, o in _walk(sc):
        key = path[-1] if path else None
        if isinstance(o, dict) and key in PLAN_KEYS and len(o) > 1:
            for k in list(o):
                yield _edit(sc, path, lambda d, k=k: d.__delitem__(k))
        if _is_spec(o):
            for k in DROP_KEYS:
                if k in o:
                    yield _edit(sc, path, lambda d, k=k: d.__delitem__(k))
            if "bounds" in o:
                yield _edit(sc, path, lambda d: (d.pop("bounds"), d.pop("half", None)))
            if o.get("mi", 0) > 0:
                yield _edit(sc, path, lambda d: (d.__setitem__("mi", d["mi"] - 1), d["con"].pop()))
            if o.get("me", 0) > 0:
                yield _edit(sc, path, lambda d: (d.__setitem__("me", d["me"] - 1), d["con"].pop(0)))
            if o["n"] > 1 and o.get("me", 0) < o["n"]:
                def cut(d):
                    d["n"] -= 1
                    d["x0"].pop()
                    if "bounds" in d:
                        d["bounds"]["lb"].pop()
                        d["bounds"]["ub"].pop()
                yield _edit(sc, path, cut)
            op = o.get("opts")
            if op:
                for k in list(op):
                    if k not in ("miter", "msimul"):
                        yield _edit(sc, path, lambda d, k=k: d["opts"].__delitem__(k))
                for k in ("miter", "msimul"):
                    v = op.get(k)
                    if isinstance(v, int):
                        for w in sorted({1, 2, 3, 5, 8, v // 2, v - 1}):
                            if 0 < w < v:
                                yield _edit(sc, path, lambda d, k=k, w=w: d["opts"].__setitem__(k, w))
            if o["obj"]["kind"] not in ("sphere",):
                yield _edit(sc, path, lambda d: d["obj"].__setitem__("kind", "sphere"))
            if any(v not in (0.0, 1.0) for v in o["x0"]):
                yield _edit(sc, path, lambda d: d.__setitem__("x0", [float(round(v)) for v in d["x0"]]))
                yield _edit(sc, path, lambda d: d.__setitem__("x0", [0.0] * len(d["x0"])))
        if isinstance(o, int) and not isinstance(o, bool) and key in ("k", "tick", "at") and o > 0:
            for w in sorted({0, 1, o // 2, o - 1}):
                if w < o:
                    yield _edit(sc, path[:-1], lambda d, w=w: d.__setitem__(key, w))
    for path, o in _walk(sc):
        key = path[-1] if path else None
        if key == "segments" and isinstance(o, list):
            for i, (t, n) in enumerate(o):
                if n > 1:
                    for w in sorted({1, n // 10, n // 2}):
                        if 0 < w < n:
                            yield _edit(sc, path, lambda l, i=i, w=w: l.__setitem__(i, [l[i][0], w]))


def minimise(prop, sc, kind, max_runs=150, max_s=60.0):
    t0 = time.monotonic()
    runs = 0
    best = sc
    seen = {digest(sc)}
    progress = True
    while progress and runs < max_runs and time.monotonic() - t0 < max_s:
        progress = False
        for cand in candidates(best):
            d = digest(cand)
            if d in seen:
                continue
            seen.add(d)
            if runs >= max_runs or time.monotonic() - t0 >= max_s:
                break
            runs += 1
            try:
                _, v, _ = evaluate(prop, cand)
            except Exception:
                continue
            if v is not None and v.kind == kind:
                best = cand
                progress = True
                break
    return best, runs


# -------------------------------------------------------------------- findings
def known_findings():
    """lines of known_findings.txt:
       finding: property=<id> kind=<kind> match=<digest of scenario> <text>
       fixed: property=<id> <commit> <text>"""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding:"):
                d = dict(w.split("=", 1) for w in line.split()[1:4])
                out.append((d["property"], d["kind"], d["match"], line.split(None, 4)[4].strip()))
    return out


# ---------------------------------------------------------------------- search
def scenario_for(prop, seed, i, tier):
    r = random.Random("%s/%d/%d" % (prop.id, seed, i))
    sc = prop.gen(r, i, tier)
    return json.loads(json.dumps(sc))


def _worker(prop, w, nworkers, total, seed, tier, shared, deadline, wfd):
    agg = {"done": 0, "execs": 0, "steps": 0, "evals": 0, "faults": {}, "sigs": set(), "reach": {}, "nontrivial": 0,
           "inconclusive": {}, "violations": [], "errors": [], "samples": [], "known": []}
    kf = [k for k in known_findings() if k[0] == prop.id]
    for i in range(w, total, nworkers):
        if time.monotonic() > deadline:
            agg["timeout"] = True
            break
        if i > struct.unpack("q", shared[0:8])[0]:
            break
        try:
            sc = scenario_for(prop, seed, i, tier)
            ctx, v, status = evaluate(prop, sc)
        except Exception as e:
            import traceback
            agg["errors"].append((i, "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]))
            if len(agg["errors"]) > 3:
                break
            continue
        agg["done"] += 1
        agg["execs"] += ctx.execs
        agg["steps"] += ctx.steps
        agg["evals"] += ctx.evals
        for k, n in ctx.faults.items():
            agg["faults"][k] = agg["faults"].get(k, 0) + n
        for k, n in ctx.reach.items():
            agg["reach"][k] = agg["reach"].get(k, 0) + n
        agg["sigs"].update(ctx.sigs)
        if status.startswith("inconclusive"):
            agg["inconclusive"][status] = agg["inconclusive"].get(status, 0) + 1
        if len(agg["samples"]) < 1 and ctx.sigs:
            agg["samples"].append({"index": i, "scenario": sc, "runs": ctx.trace[:6]})
        if v is not None:
            hit = [k for k in kf if k[1] == v.kind and k[2] == digest(sc)]
            if hit:
                agg["known"].append((v.kind, hit[0][3]))
                continue
            agg["violations"].append((i, sc, v.kind, v.msg))
            cur = struct.unpack("q", shared[0:8])[0]
            if i < cur:
                shared[0:8] = struct.pack("q", i)
            break
    with os.fdopen(wfd, "wb") as fh:
        fh.write(pickle.dumps(agg, protocol=4))


def search(prop, seed, tier, wall_cap):
    total = prop.thorough_n if tier == "thorough" else prop.quick_n
    total = max(1, int(total * float(os.environ.get("VERIF_SCALE", "1"))))
    shared = mmap.mmap(-1, 64)
    shared[0:8] = struct.pack("q", 1 << 60)
    deadline = time.monotonic() + wall_cap
    pipes = []
    sys.stdout.flush()
    for w in range(WORKERS):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for rr, _ in pipes:
                    os.close(rr)
                _worker(prop, w, WORKERS, total, seed, tier, shared, deadline, wr)
            except BaseException as e:
                sys.stderr.write("worker: %r\n" % (e,))
                code = 3
            finally:
                os._exit(code)
        os.close(wr)
        pipes.append((r, pid))
    bufs = {r: b"" for r, _ in pipes}
    open_ = set(bufs)
    while open_:
        rd, _, _ = select.select(list(open_), [], [], 5.0)
        for r in rd:
            b = os.read(r, 1 << 20)
            if b:
                bufs[r] += b
            else:
                open_.discard(r)
    out = []
    for r, pid in pipes:
        os.close(r)
        os.waitpid(pid, 0)
        if not bufs[r]:
            raise HarnessError("a worker died without a report")
        out.append(pickle.loads(bufs[r]))
    return total, out


def merge(parts):
    m = {"done": 0, "execs": 0, "steps": 0, "evals": 0, "faults": {}, "sigs": set(), "reach": {}, "inconclusive": {},
         "violations": [], "errors": [], "samples": [], "known": [], "timeout": False}
    for a in parts:
        for k in ("done", "execs", "steps", "evals"):
            m[k] += a[k]
        for k in ("faults", "reach", "inconclusive"):
            for q, n in a[k].items():
                m[k][q] = m[k].get(q, 0) + n
        m["sigs"] |= a["sigs"]
        for k in ("violations", "errors", "samples", "known"):
            m[k] += a[k]
        m["timeout"] |= a.get("timeout", False)
    m["violations"].sort(key=lambda t: t[0])
    return m


REAL = ["all of the sqpdfo package (driver, initialisation, main loop, model building, trust-region solvers, "
        "multipliers, optimality tests, history file and terminal output)", "numpy / LAPACK arithmetic",
        "Python text and buffer I/O layers above the simulated files", "Python threads (where the check uses them)"]
STUB = ["the user's functions (generated black boxes)", "files (in-memory, below Python's raw layer)",
        "terminal streams", "random numbers, clocks, pids", "delivery of interrupts and memory errors",
        "the thread scheduler (one baton, switches decided by the scenario)"]


def write_evidence(prop, seed, tier, m, total, wall, nviol):
    d = os.environ.get("VERIF_EVIDENCE_DIR") or os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    hours = max(wall, 1e-6) / 3600
    samples = [s for s in m["samples"]][:3]
    ev = {"property": prop.id, "tier": tier, "seed": seed, "level": prop.level,
          "coverage": {
              "evaluations": m["execs"],
              "distinct_nontrivial": len(m["sigs"]),
              "rule": prop.rule,
              "samples": samples,
              "scenarios": m["done"], "scenarios_planned": total,
              "seeds": {"VERIF_SEED": seed, "scenario_seeds": "%s/%d/0..%d" % (prop.id, seed, total - 1)},
              "simulated_runs_per_hour": round(m["execs"] / hours),
              "scenario_seeds_per_hour": round(m["done"] / hours),
              "simulated_time_steps": m["steps"],
              "simulated_time_unit": "clock ticks: one per executed source line (interrupt/thread checks) or per "
                                     "function start and backward jump of the package (all others)",
              "black_box_evaluations": m["evals"],
              "faults_injected": dict(sorted(m["faults"].items())),
              "reached": dict(sorted(m["reach"].items())),
              "inconclusive": m["inconclusive"],
              "interleavings_measure": "distinct_nontrivial counts distinct digests of " + prop.sig_measure,
              "components_real": REAL, "components_stubbed": STUB,
              "stopped_at_wall_cap": m["timeout"],
          },
          "assumptions": prop.assumptions, "wall_s": round(wall, 2), "violations": nviol}
    with open(os.path.join(d, prop.id + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    return ev


def save_replay(prop, seed, index, sc, kind, msg, trace, original, runs):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop.id, "seed": seed, "index": index, "kind": kind, "message": msg, "scenario": sc,
            "trace": trace, "minimised": {"runs": runs, "original": original}}
    p = os.path.join(d, "%s-%d-%d-%s.json" % (prop.id, seed, index, digest(sc)[:8]))
    with open(p, "w") as fh:
        json.dump(body, fh, indent=1)
    return p


def replay(path, props):
    body = json.load(open(path))
    prop = props[body["property"]]
    ctx, v, status = evaluate(prop, body["scenario"])
    if v is None:
        print("replay: property=%s held (%s)" % (prop.id, status))
        return 0
    print("replay: kind=%s %s" % (v.kind, v.msg))
    print("VIOLATION property=%s replay=%s" % (prop.id, path))
    return 1 if v.kind == body["kind"] or True else 0


def confirm(path, check_py):
    try:
        p = subprocess.run([sys.executable, check_py, "--replay", path], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=120, text=True)
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 1 and "VIOLATION" in p.stdout


def main_check(prop, tier, check_py):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()
    total, parts = search(prop, seed, tier, prop.thorough_wall if tier == "thorough" else prop.quick_wall)
    m = merge(parts)
    wall = time.monotonic() - t0
    write_evidence(prop, seed, tier, m, total, wall, 1 if m["violations"] else 0)
    for kind, text in sorted(set(m["known"])):
        print("KNOWN-FINDING: property=%s %s" % (prop.id, text))
    print("%s: %d/%d scenarios, %d simulated runs, %d distinct, %d steps, %.1f s" %
          (prop.id, m["done"], total, m["execs"], len(m["sigs"]), m["steps"], wall))
    if m["faults"]:
        print("  faults: " + ", ".join("%s=%d" % kv for kv in sorted(m["faults"].items())))
    if m["reach"]:
        print("  reached: " + ", ".join("%s=%d" % kv for kv in sorted(m["reach"].items())))
    if m["inconclusive"]:
        print("  inconclusive: %s" % m["inconclusive"])
    if m["timeout"]:
        print("  stopped at the wall cap")
    if m["violations"]:
        i, sc, kind, msg = m["violations"][0]
        print("violation at scenario %d: [%s] %s" % (i, kind, msg))
        if os.environ.get("VERIF_NOMIN"):      # mutation campaigns only want to know
            return 1
        small, runs = minimise(prop, sc, kind)
        ctx, v, _ = evaluate(prop, small)
        if v is None or v.kind != kind:
            small = sc
            ctx, v, _ = evaluate(prop, small)
        path = save_replay(prop, seed, i, small, kind, v.msg if v else msg, ctx.trace, sc, runs)
        ok = confirm(path, check_py)
        if not ok and small is not sc:
            path = save_replay(prop, seed, i, sc, kind, msg, [], sc, 0)
            ok = confirm(path, check_py)
        print("minimised with %d runs; replay in a fresh process %s" %
              (runs, "reproduces" if ok else "does NOT reproduce (state outside the simulator?)"))
        if v:
            print("minimised: [%s] %s" % (v.kind, v.msg))
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    if m["errors"]:
        for i, e in m["errors"][:3]:
            sys.stderr.write("harness error in scenario %d:\n%s\n" % (i, e))
        print("harness errors: %d" % len(m["errors"]))
        return 2
    return 0
