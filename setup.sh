#!/bin/bash
# nothing to build: the framework is Python and imports the library from /repo/src
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import jax, numpy, scipy, sys; sys.path.insert(0, '.'); import mc.core"
