#!/bin/bash
# Decides one property against /repo's working tree.
#   check.sh P01                     generated-input search (VERIF_SEED, VERIF_TIER)
#   check.sh P01 --replay FILE       re-runs one saved failing case
#   check.sh --setup                 builds everything
set -u
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 3
export PBT_ROOT="$PWD"
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTFLAGS="-A warnings"
export CARGO_TARGET_DIR="$PBT_ROOT/harness/target"
unset CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$CARGO_TARGET_DIR" evidence replays

# Never trust time stamps: drop what was built from other sources.
stamp="$CARGO_TARGET_DIR/repo.sha256"
now=$(cd /repo && find src build Cargo.toml -type f -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
  (cd harness && cargo clean --offline -p rustful >/dev/null 2>&1)
  echo "$now" > "$stamp"
fi

build() {
  local log="$CARGO_TARGET_DIR/build.$$.log"
  if ! (cd harness && cargo build --offline "$@" >"$log" 2>&1); then
    echo "error: the build failed" >&2
    tail -40 "$log" >&2
    rm -f "$log"
    exit 3
  fi
  rm -f "$log"
}

if [ "${1:-}" = "--setup" ]; then
  build --lib --bins
  exit 0
fi

id="${1:?usage: check.sh ID}"
shift
bin="$(echo "$id" | tr 'A-Z' 'a-z')"
build --bin "$bin"
exec "$CARGO_TARGET_DIR/debug/$bin" "$@"
