#!/bin/bash
# development build
cd /verif/sim && RUSTC_WRAPPER=/verif/sim/rustc-wrap.sh CARGO_TARGET_DIR=/verif/target/std CARGO_NET_OFFLINE=true cargo build --offline 2>&1 | grep -E "^error" -A9 | head -${1:-60}
