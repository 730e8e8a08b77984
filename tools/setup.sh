#!/bin/bash
# Builds cdx from /repo's working tree and the shim once, so that the first check is not slow.
set -e
cd "$(dirname "$0")/.."
python3 - <<'PY'
import sys, shutil
sys.path.insert(0, "mc")
import core
b = core.scratch()
try:
    print(core.build_cdx()); print(core.build_shim(b))
finally:
    shutil.rmtree(b, ignore_errors=True)
PY
