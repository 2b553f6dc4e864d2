#!/bin/bash
# check.sh <PROPERTY> [quick|thorough] [--seed N] [--cases N] [--keep-going] [--replay FILE]
# Builds the harness against /repo's working tree and runs one property.
. /verif/env.sh
cd /verif/harness || exit 2
if ! out=$(cargo build --offline --locked 2>&1); then
  echo "$out" | tail -40
  echo "ERROR the harness does not build against /repo"
  exit 2
fi
cd /verif
exec "$CARGO_TARGET_DIR/debug/vh" "$@"
