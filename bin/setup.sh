#!/bin/bash
# Nothing to install: checks that the tools are there and that the driver builds.
set -e
cd "$(dirname "$0")/.."
quint --version
python3 - <<'P'
import sys, tempfile, shutil
sys.path.insert(0, "bin")
sys.argv = ["check.py"]
import check
d = tempfile.mkdtemp()
try:
    for k in ("amd64", "386"):
        print(check.build(k, d))
finally:
    shutil.rmtree(d)
P
