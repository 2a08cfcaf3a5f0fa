#!/bin/bash
# Run with cwd = the repository. Builds demo.rs against it and runs it:
# exit 0 when the guarantee holds, nonzero when it does not.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d /tmp/zokdemo.XXXXXX) || exit 99
trap 'rm -rf "$T"' EXIT
cp -r "$D/kit/." "$T/" && cp "$D/demo.rs" "$T/src/main.rs" || exit 99
sed -i "s#@REPO@#$R#" "$T/Cargo.toml"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg zok_verif --check-cfg=cfg(zok_verif) -A warnings"
unset CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
[ -f "$HOME/.cargo/env" ] && . "$HOME/.cargo/env"
B=${ZOKDEMO_TARGET:-$T/target}
F=; grep -q '^// features: alt' "$T/src/main.rs" && F="--features alt"
cd "$T" && cargo build --offline $F --target-dir "$B" > "$T/build.log" 2>&1 || { tail -30 "$T/build.log"; exit 98; }
timeout 120 "$B/debug/kit"
