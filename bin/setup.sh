#!/bin/bash
# Nothing is installed; this only warms the Go build cache so that the first check starts quickly.
cd "$(dirname "$0")/.." || exit 1
python3 - <<'P'
import sys
sys.path.insert(0, "lib")
import core
c = core.Ctx("C00", "quick", 1)
try:
    c.build()
    print("driver builds")
finally:
    c.cleanup()
P
