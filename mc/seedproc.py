"""python -m mc.seedproc: the labels of all C12 cases, in a process of its own."""
import contextlib
import io
import json
import os
import sys
import warnings

sys.path.insert(0, os.environ.get("MC_REPO", "/repo"))
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
from . import rng  # noqa
rng.install()
from .checks import c12  # noqa

with contextlib.redirect_stdout(io.StringIO()):
    t = c12.table()
print("TABLE " + json.dumps(t))
