#!/usr/bin/env bash
# Builds the replay harness against /repo's working tree; every check rebuilds it when the tree changes.
set -e
cd "$(dirname "$0")"
python3 - <<'PY'
import sys; sys.path.insert(0, "lib")
import stages
for c in stages.CRATES:
    print(stages.build(c))
PY
