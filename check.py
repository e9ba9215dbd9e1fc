#!/usr/bin/env python3
"""check.py <property id> [--replay FILE] [--tier quick|thorough] [--runs N]"""
import os
import sys

PY = "/opt/venv/bin/python"
FIXED = {
    "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "PYVISTA_OFF_SCREEN": "true",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "NUMEXPR_NUM_THREADS": "1", "VERIF_REEXEC": "1",
}
if os.environ.get("VERIF_REEXEC") != "1":
    env = dict(os.environ, **FIXED)
    env.setdefault("PYTHONHASHSEED", "0")
    env.pop("PYTHONPATH", None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    import importlib

    pid = sys.argv[1] if len(sys.argv) > 1 else "--help"
    if not pid.startswith("C"):
        from sim import lib  # noqa: F401

        print("library under test:", lib.SRC)
        return 0
    from sim import lib  # noqa: F401  seams first, then the library
    from sim import runner

    mod = importlib.import_module(f"sim.props.{pid.lower()}")
    return runner.main(mod, sys.argv[2:])


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
