#!/bin/bash
# build.sh VARIANT : builds the simulator around /repo's current working tree
# (variant: std, capture or noglobal) into /verif/target/VARIANT.
set -e
v=${1:-std}
here=$(cd "$(dirname "$0")/.." && pwd)
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER="$here/sim/rustc-wrap.sh" CARGO_TARGET_DIR="$here/target/$v"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.lock"
flock 9
cd "$here/sim"
case $v in
  std) f=() ;;
  capture) f=(--no-default-features --features capture) ;;
  noglobal) f=(--no-default-features --features noglobal) ;;
  *) echo "unknown variant $v" >&2; exit 2 ;;
esac
# cargo goes by modification times, which copies of a tree needn't keep
h=$( (cd /repo && find src Cargo.toml build.rs -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum; cd "$here/sim" && find src build.rs Cargo.toml Cargo.lock rustc-wrap.sh -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
stamp="$CARGO_TARGET_DIR/.sources"
if [ "$(cat "$stamp" 2>/dev/null)" != "$h" ]; then
  rm -f "$stamp"
  cargo clean --offline -q -p liso -p lisosim 2>/dev/null || true
fi
cargo build --offline -q "${f[@]}" 2>"$CARGO_TARGET_DIR/.log" || { cat "$CARGO_TARGET_DIR/.log" >&2; exit 2; }
echo "$h" >"$stamp"
