#!/bin/sh
# Nothing is installed: this only tells early if a tool the checks need is missing.
set -e
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import ply, renew, sys; sys.path.insert(0, '/repo'); import prophy, prophyc"
test -x /usr/bin/clang++ || test -x /usr/bin/g++
mkdir -p "$(dirname "$0")/evidence"
