#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough]   search for violations
   check.py --replay <file>                      reproduce one
   check.py --list"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
WANT = {"PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
        "OPENBLAS_CORETYPE": "Nehalem", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
        "SQPDFO_SIM_HOOKS": "1", "PYTHONUTF8": "1"}


def main():
    keep = os.environ.get("VERIF_KEEP_HASHSEED")
    if any(os.environ.get(k) != v for k, v in WANT.items() if not (keep and k == "PYTHONHASHSEED")) \
            and not os.environ.get("VERIF_CHILD"):
        env = dict(os.environ)
        env.update({k: v for k, v in WANT.items() if not (keep and k == "PYTHONHASHSEED")})
        env["VERIF_CHILD"] = "1"
        os.execve(sys.executable, [sys.executable, "-W", "ignore::SyntaxWarning"] + sys.argv, env)
    os.environ.pop("VERIF_CHILD", None)
    sys.dont_write_bytecode = True
    # never run byte code left behind by another tree
    sys.pycache_prefix = "/nonexistent/verif-no-pyc"
    sys.path[:0] = [os.environ.get("SQPDFO_REPO", "/repo"), HERE]
    os.chdir(HERE)
    import sqpdfo  # imported here, run only in forked children
    assert os.path.realpath(sqpdfo.__file__).startswith(os.path.realpath(os.environ.get("SQPDFO_REPO", "/repo"))), sqpdfo.__file__
    import numpy.linalg, scipy.linalg  # noqa: F401
    import sqpdfo.simhooks
    sqpdfo.simhooks.enabled = False     # switched on only by the runs that observe it
    from sim import engine
    from props import PROPS
    a = sys.argv[1:]
    if a[:1] == ["--list"]:
        for p in PROPS.values():
            print(p.id, p.title)
        return 0
    if a[:1] == ["--replay"]:
        return engine.replay(os.path.abspath(a[1]) if os.path.isabs(a[1]) else a[1], PROPS)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return engine.main_check(PROPS[a[0]], tier, os.path.join(HERE, "check.py"))


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit as e:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
