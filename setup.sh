#!/bin/bash
# nothing to compile: the checks import /repo/src directly; verify that the interpreter and the package are usable
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH=/repo/src /opt/venv/bin/python -c "import numpy, scipy, tight_binding_redweasel" || exit 3
