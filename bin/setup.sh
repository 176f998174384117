#!/bin/sh
# Nothing to build ahead: every check compiles what it verifies from /repo.
set -e
for t in goto-cc goto-instrument cbmc gcc python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p "$(dirname "$0")/../evidence"
exit 0
