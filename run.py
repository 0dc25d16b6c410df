#!/usr/bin/env python3
"""Entry point of every check:  run.py <property> [--tier quick|thorough] [--replay FILE]

Re-executes itself under the interpreter that has the package's dependencies, with a fixed
environment, and with the package imported from $VERIF_REPO (default /repo).
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("VERIF_REPO", "/repo")


def main():
    if os.environ.get("_VERIF_CHILD") != "1":
        import shutil
        import subprocess
        import tempfile
        scratch = tempfile.mkdtemp(prefix="verif-")
        env = dict(os.environ)
        env.update({
            "_VERIF_CHILD": "1", "VERIF_SCRATCH": scratch, "TMPDIR": scratch,
            "PYTHONPATH": REPO, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
            "MPLBACKEND": "Agg", "MPLCONFIGDIR": os.path.join(scratch, "mpl"),
            "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
            "NUMBA_NUM_THREADS": "1", "NUMBA_CACHE_DIR": os.path.join(scratch, "numba"),
            "HYPOTHESIS_STORAGE_DIRECTORY": os.path.join(scratch, "hyp"), "LC_ALL": "C.UTF-8",
        })
        try:
            return subprocess.call([PY, os.path.abspath(__file__)] + sys.argv[1:], env=env, cwd=scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    from vlib import harness
    return harness.main(sys.argv[1:])


if __name__ == "__main__":
    sys.exit(main())
