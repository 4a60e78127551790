#!/bin/bash
# Builds the simulator against /repo's current working tree. cargo goes by modification times,
# which say little about trees that are copied or patched back and forth: when the sources'
# content is not what was built last, the repository's crate is built anew.
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
(
  set -e
  mkdir -p "$HERE/sim/target"
  exec 9>"$HERE/sim/target/.build-lock"
  flock 9
  cd "$HERE/sim"
  SUM=$( (cat "$HERE"/sim/Cargo.* "$HERE"/sim/build.rs "$HERE"/sim/src/*.rs; cd /repo && find Cargo.toml build.rs src protos -type f | LC_ALL=C sort | xargs sha256sum) 2>/dev/null | sha256sum | cut -d' ' -f1)
  STAMP="$HERE/sim/target/.built"
  if [ -x target/release/orcsim ] && [ -x target/shipped/orcsim ] && [ "$(cat "$STAMP" 2>/dev/null)" = "$SUM" ]; then exit 0; fi
  rm -f "$STAMP"
  for p in release shipped; do
    if [ -d target/$p ]; then
      cargo clean -q --profile $p --offline -p orc-format -p orcsim >/dev/null 2>&1 || true
    fi
  done
  # Two builds side by side: with overflow checks, and as users ship it.
  cargo build -q --release --offline 2>"$HERE/sim/target/build.log" &
  ok=0
  cargo build -q --profile shipped --offline 2>"$HERE/sim/target/build-shipped.log" || ok=1
  wait $! || ok=1
  [ $ok = 0 ] || { cat "$HERE/sim/target/build-shipped.log" >> "$HERE/sim/target/build.log"; grep -E '^(error|warning: unused)' -A6 "$HERE/sim/target/build.log" | head -60 >&2; echo "build of the simulator failed" >&2; exit 1; }
  echo "$SUM" > "$STAMP"
)
