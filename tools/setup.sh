#!/bin/bash
# Builds the driver, the dependencies and the facts of the current tree; warms the witness crate's dependencies.
cd "$(dirname "$0")/.." || exit 1
python3 engine/build.py || exit 1
VERIF_EVIDENCE="$PWD/.cache/setup-evidence" python3 check.py C28 quick >/dev/null 2>&1
exit 0
