#!/bin/bash
# Everything is plain Python plus the C++ extension, which every check compiles itself from /repo's current tree.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "import nanobind, numpy" && g++ --version >/dev/null && echo ready
