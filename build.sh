#!/bin/bash
# Builds the harness (and nyx-space from /repo's working tree) into /verif/target, offline.
cd "$(dirname "$(readlink -f "$0")")/harness" || exit 2
. ../env.sh
# Cargo trusts mtimes; force a rebuild of nyx-space whenever the *content* of /repo's sources differs from the last build.
mkdir -p "$CARGO_TARGET_DIR"
STAMP="$CARGO_TARGET_DIR/repo.sha"
NEW=$(cd ../../repo && find nyx-core/src nyx-core/Cargo.toml nyx-core/build.rs Cargo.toml -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$STAMP" 2>/dev/null)" != "$NEW" ]; then
  rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/nyx-space-* "$CARGO_TARGET_DIR"/debug/.fingerprint/nyxmc-*
  rm -f "$STAMP"
fi
LOG="$CARGO_TARGET_DIR/build.log"
if ! cargo build --offline --locked >"$LOG" 2>&1; then
  grep -E "^(error|warning: unused)" -A6 "$LOG" | head -60; tail -5 "$LOG"
  exit 1
fi
echo "$NEW" > "$STAMP"
