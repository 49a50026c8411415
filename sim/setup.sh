#!/bin/bash
# Builds the simulator against /repo's working tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
# Cargo trusts time stamps; a tree that was copied or restored may keep old
# ones. Forget the library's build when its content changed.
sum=$(cd /repo && find src Cargo.toml build.rs .cargo -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum)
if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/repo.sum" 2>/dev/null)" ]; then
  rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/yaml-peg-*
fi
mkdir -p "$CARGO_TARGET_DIR"
log=$CARGO_TARGET_DIR/build.log
if ! cargo build --offline >"$log" 2>&1; then
  # An interface that has grown: the simulator does without what it cannot use.
  for f in sub_parsers own_repr none; do
    [ $f = none ] && args= || args="--features $f"
    # shellcheck disable=SC2086
    cargo build --offline --no-default-features $args >"$log.2" 2>&1 && break
    [ $f != none ] || { cat "$log" >&2; exit 2; }
  done
fi
echo "$sum" >"$CARGO_TARGET_DIR/repo.sum"
