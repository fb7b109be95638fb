#!/bin/bash
# Each check builds the harness from /repo's working tree itself; this only shows early that it can.
set -e
cd "$(dirname "$0")/../harness"
RUSTFLAGS='--cfg mortal_verif --cap-lints allow' cargo build --offline --target-dir ../target
