#!/bin/bash
# Nothing is prebuilt: every check compiles /repo's current sources itself. Verifies the tools.
set -e
cd "$(dirname "$0")"
for t in goto-cc goto-instrument cbmc cvc5 z3 gcc python3; do
    command -v "$t" >/dev/null || { echo "missing tool: $t" >&2; exit 1; }
done
mkdir -p evidence
python3 -c 'import specs; print(len(specs.SPECS), "checks available")'
