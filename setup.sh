#!/bin/bash
# Nothing to download or install: checks the tools the machinery needs.
cd "$(dirname "$0")" || exit 1
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence
/opt/venv/bin/python -c "import vt, z3, torch; print('z3', z3.get_version_string(), 'torch', torch.__version__)"
