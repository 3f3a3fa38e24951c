#!/bin/bash
# build.sh CRATE  -- (re)builds a check binary from /repo's current working tree
set -e
crate="$1"
export HOME=${HOME:-/root}
export PATH=/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
ROOT=$(cd "$(dirname "$0")/.." && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 RUSTC_WRAPPER="$ROOT/tools/rustc-wrap.sh"
export CARGO_TARGET_DIR="$ROOT/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
# Cargo decides freshness by timestamps; decide it by content instead.
hash=$( { cat "$ROOT/tools/rustc-wrap.sh"; find /repo "$ROOT/$crate" "$ROOT/sim" -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -name 'Cargo.lock' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -d' ' -f1)
stamp="$CARGO_TARGET_DIR/.stamp-$crate"
mkdir -p "$CARGO_TARGET_DIR"
if [ "$(cat "$stamp" 2>/dev/null)" != "$hash" ]; then
  for d in "$CARGO_TARGET_DIR"/release/.fingerprint/{pasture-*,pcheck-*,iocheck-*,dsim-*}; do
    [ -e "$d" ] && rm -rf "$d"
  done
fi
cd "$ROOT/$crate"
cargo build --release --offline -q 2> "$CARGO_TARGET_DIR/build-$crate.log" || { cat "$CARGO_TARGET_DIR/build-$crate.log" >&2; echo "build failed" >&2; exit 2; }
echo "$hash" > "$stamp"
