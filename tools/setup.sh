#!/bin/bash
# Build the harnesses against /repo once, so that the checks start quickly.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import lib
lib.val_bin()
lib.typed_bin()
lib.serde_bin()
P
