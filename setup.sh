#!/bin/bash
# The framework is interpreted; each check builds /repo's tree (and the C shims it
# needs) in scratch space of its own. This only verifies the tools are there.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
python - <<'P'
import ast, glob
for f in glob.glob("mc/**/*.py", recursive=True):
    ast.parse(open(f).read(), f)
import numpy, Cython, setuptools, cffi
P
gcc --version | head -1
