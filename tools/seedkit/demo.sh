#!/bin/bash
# exit 0: the property holds; nonzero: it does not.  Run with /repo as working directory, after the build.
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
exec python3-vt "$d/demo.py"
