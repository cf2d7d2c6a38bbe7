#!/bin/bash
# usage: check.sh build | check.sh <ID> [quick|thorough] | check.sh replay FILE | check.sh list
# Builds the explorer against /repo's working tree and runs one check.
# exit 0: held on everything explored; 1: VIOLATION; 2: no verdict (build failure, ...)
set -u
export HOME=/root
export PATH=/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_HOME=/root/.cargo CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR=$here/target
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence" "$here/replays"

build() {
  cd "$here/mc" || exit 2
  # cargo goes by modification times; the sources may have been replaced by files with older ones
  local now stamp=$CARGO_TARGET_DIR/repo.stamp
  now=$( (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
  if [ ! -f "$stamp" ] || [ "$(cat "$stamp")" != "$now" ]; then
    rm -f "$stamp"
    cargo clean --release --offline --locked -p ellipticcurve -p mc >/dev/null 2>&1
  fi
  cargo build --release --offline --locked >"$CARGO_TARGET_DIR/build.log" 2>&1 || {
    tail -n 40 "$CARGO_TARGET_DIR/build.log" >&2
    echo "check.sh: building the explorer against /repo failed" >&2
    exit 2
  }
  echo "$now" >"$stamp"
}

case "${1:-}" in
  build) build; exit 0 ;;
  list) build; exec "$CARGO_TARGET_DIR/release/mc" list ;;
  replay) f=$(realpath "${2:?replay FILE}"); build; cd "$here"; exec "$CARGO_TARGET_DIR/release/mc" replay "$f" ;;
  C*) build; cd "$here"; exec "$CARGO_TARGET_DIR/release/mc" check "$1" --tier "${2:-quick}" ;;
  *) echo "usage: check.sh build | <ID> [quick|thorough] | replay FILE" >&2; exit 2 ;;
esac
