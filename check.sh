#!/bin/bash
# usage: check.sh PROP [run.py options]; judges /repo's current working tree
cd "$(dirname "$0")" || exit 3
. /opt/vp/env.sh
export PYTHONDONTWRITEBYTECODE=1
exec "${PY:-/opt/venv/bin/python}" harness/run.py "$@"
