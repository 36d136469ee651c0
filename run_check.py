#!/opt/venv/bin/python
"""run_check.py C01            search (VERIF_SEED, VERIF_TIER)
run_check.py replay FILE    repeat one recorded run"""
import os
import sys

ENV = {
    "PYTHONHASHSEED": "0",
    "NUMBA_DISABLE_JIT": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYVISTA_OFF_SCREEN": "true",
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
}


def main():
    py = "/opt/venv/bin/python"
    if os.environ.get("VERIF_REEXEC") != "1":
        env = dict(os.environ)
        env.update(ENV)
        env["VERIF_REEXEC"] = "1"
        env.pop("PYTHONPATH", None)
        os.execve(py, [py, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)
    here = os.path.dirname(os.path.abspath(__file__))
    os.chdir(here)
    sys.path.insert(0, here)
    from sim import runner

    if sys.argv[1] == "selftest":
        from sim import selftest

        return selftest.main()
    if sys.argv[1] == "host":
        from sim import hosts

        return hosts.serve(runner.load(sys.argv[2]))
    if sys.argv[1] == "replay":
        import json

        path = os.path.abspath(sys.argv[2])
        return runner.replay(path)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    nproc = int(os.environ.get("VERIF_PROCS", os.cpu_count() or 1))
    return runner.run(runner.load(sys.argv[1]), tier, seed, nproc)


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        import traceback

        traceback.print_exc()
        code = 2  # an error of the check, not a violation
    sys.exit(code)
