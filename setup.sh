#!/bin/bash
# nothing to build: the package is pure Python and imported from /repo's working tree; just make sure the tools are there
cd "$(dirname "$0")" && mkdir -p evidence && exec /opt/venv/bin/python -c "import casadi, numpy, scipy, matplotlib"
