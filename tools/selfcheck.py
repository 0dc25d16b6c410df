#!/usr/bin/env python3
"""Setup: nothing to build. Confirms that the interpreter, Hypothesis and the package can be imported."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
code = ("import sys; sys.path.insert(0, %r); from vlib import deps; deps.enable_hypothesis(); import hypothesis, numpy, "
        "starwinds_magnetogram; print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__)" % HERE)
env = dict(os.environ, PYTHONPATH=os.environ.get("VERIF_REPO", "/repo"), PYTHONDONTWRITEBYTECODE="1")
sys.exit(subprocess.call([os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python"), "-c", code], env=env))
