#!/bin/bash
# Nothing needs building ahead: each check compiles what it needs from /repo's current tree.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -c 'import numpy, scipy' || exit 1
exit 0
