#!/bin/bash
# Typechecks every module of the specification. Nothing is built: the library
# is imported from /repo/src by every check.
set -e
cd "$(dirname "$0")/spec"
ls *.qnt | xargs -P 6 -I{} sh -c 'quint typecheck {} > /dev/null || { echo "typecheck of {} failed"; exit 1; }'
/opt/venv/bin/python -B -c 'import sys; sys.path.insert(0, "/repo/src"); import sunwhere'
echo ready
