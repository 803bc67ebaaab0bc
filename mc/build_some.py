"""setup.py build_ext --inplace for the extensions named in sys.argv[1:] only."""
import copy
import os
import runpy
import sys

import Cython.Build
from setuptools.command.build_ext import build_ext

NAMES = {"randomgen." + n for n in sys.argv[1:]}
_run = build_ext.run


def run(self):
    self.extensions = [e for e in self.extensions if e.name in NAMES]
    self.build_temp = os.path.join(self.build_temp, "mc")
    _run(self)


build_ext.run = run
sys.argv = ["setup.py", "build_ext", "--inplace", "--force"]
sys.path.insert(0, os.getcwd())
runpy.run_path("setup.py", run_name="__main__")
