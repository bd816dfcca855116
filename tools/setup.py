"""Nothing to build: check that the interpreter, Hypothesis and the code under test are there."""
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import run  # noqa: E402

with tempfile.TemporaryDirectory() as d:
    subprocess.check_call([run.PY, "-c", "import pbt.worker, hypothesis, pbt.sut; print('hypothesis', hypothesis.__version__)"],
                          env=run.child_env(0, d), cwd=d)
