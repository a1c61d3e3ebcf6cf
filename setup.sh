#!/bin/bash
# builds the driver once; the checks build it again if it is not there
cd "$(dirname "$0")" && python3 - <<'P'
import sys; sys.path.insert(0, '.'); sys.path.insert(0, 'harness')
import check
d, e = check.build_driver()
print(d or e)
P
true
