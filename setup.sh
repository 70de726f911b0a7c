#!/bin/bash
# nothing to build: the checks are Python and import the code under test from /repo
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
exec /opt/pypyenv/bin/python -c "import numpy, scipy; print('ok')"
