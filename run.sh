#!/bin/bash
# run.sh build | check <ID> quick|thorough | replay <file> | list
# Builds the checker against /repo's current working tree and runs it.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export HOME=${HOME:-/root} CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=nightly CARGO_INCREMENTAL=0
export PATH=/root/.cargo/bin:$PATH RUSTC_WRAPPER= CARGO_TARGET_DIR="$VERIF_DIR/mc/target"
unset CARGO_ENCODED_RUSTFLAGS
LOG=$(mktemp /tmp/mc-build.XXXXXX)
trap 'rm -f -- "$LOG"' EXIT

sum() { (cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum; cd "$VERIF_DIR/mc" && find src shim Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum); }

attempt() {
  RUSTFLAGS="$1" timeout 800 cargo build --offline --release --manifest-path mc/Cargo.toml >"$LOG" 2>&1
}

build() {
  mkdir -p "$CARGO_TARGET_DIR"
  local now last
  now=$(sum)
  last=$(cat "$CARGO_TARGET_DIR/built-from" 2>/dev/null)
  if [ "$now" = "$last" ] && [ -x "$CARGO_TARGET_DIR/release/mc" ]; then return 0; fi
  # cargo goes by mtimes: a file put back with an old one must not leave a stale build
  rm -f -- "$CARGO_TARGET_DIR/built-from"
  [ -d "$CARGO_TARGET_DIR/release" ] && cargo clean --offline --release -p rawdio -p crossbeam -p mc --manifest-path mc/Cargo.toml >/dev/null 2>&1
  # parts of the stand-in that lack what the code uses are left out, one after the other
  local cfg
  for cfg in "--cfg rawdio_mc" "--cfg rawdio_mc --cfg mc_std_collections" "--cfg rawdio_mc --cfg mc_std_sync" \
    "--cfg rawdio_mc --cfg mc_std_collections --cfg mc_std_sync" ""; do
    attempt "$cfg" && break
    tail -n 40 "$LOG" >&2
    [ -n "$cfg" ] || return 1
    echo "build with '$cfg' failed" >&2
  done
  echo "$now" >"$CARGO_TARGET_DIR/built-from"
}

case "${1:-}" in
build) build || exit 4 ;;
check)
  build || exit 4
  "$CARGO_TARGET_DIR/release/mc" check "$2" --tier "${3:-quick}"
  exit $? ;;
replay)
  build || exit 4
  "$CARGO_TARGET_DIR/release/mc" replay "$2"
  exit $? ;;
list)
  build || exit 4
  "$CARGO_TARGET_DIR/release/mc" list --tier "${2:-quick}" ;;
*) echo "usage: run.sh build | check <ID> quick|thorough | replay <file> | list [thorough]" >&2; exit 2 ;;
esac
