#!/bin/bash
# run.sh PROPERTY quick|thorough       decide a property against /repo's working tree
# run.sh PROPERTY replay FILE          re-execute one reported counterexample
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
export PYTHONPATH="$here"
cd "$here" || exit 2
exec python -u -m mc.driver "$@"
