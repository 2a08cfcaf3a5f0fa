#!/bin/bash
# usage: run.sh setup | run.sh <PROPERTY> [replay <file> | family <name>]
# Builds the harness against /repo's current working tree and runs one check.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${ZOKV_REPO:-/repo}
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg zok_verif --check-cfg=cfg(zok_verif) -A warnings"
export ZOKV_ROOT="$HERE"
unset CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
H="$HERE/harness"
T="$H/target"
F=
# C26 runs the families over another field: same sources, another feature, its own build folder
if [ "${1:-}" = C26 ] || [ "${2:-}" = alt ]; then T="$H/target-alt"; F=alt; fi
mkdir -p "$T" "$HERE/evidence"
[ -f "$HOME/.cargo/env" ] && . "$HOME/.cargo/env"
stamp=$( (cd "$REPO" && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; cd "$H" && find src Cargo.toml Cargo.lock -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum)
if [ ! -f "$T/stamp" ] || [ "$(cat "$T/stamp")" != "$stamp" ]; then
  rm -rf "$T"/debug/.fingerprint/zero-over-k-* "$T"/debug/.fingerprint/zokverif-*
fi
ok=
# A check that drives an internal function directly stops compiling when that
# function's signature changes; the others must still give their answer, so
# its module is left out and end-to-end families stand in for it.
for round in 1 2 3 4; do
  if cargo build --offline --locked --features "$F" --manifest-path "$H/Cargo.toml" --target-dir "$T" > "$T/build.log" 2>&1; then ok=1; break; fi
  bad=$(sed -nE 's/^ *--> src\/checks\/(c[0-9]+)\.rs:.*/no_\1/p' "$T/build.log" | sort -u | grep -v -e no_c01 -e no_c26)
  new=
  for b in $bad; do case " $F " in *" $b "*) ;; *) new=1; F="$F $b";; esac; done
  [ -z "$new" ] && break
done
if [ -z "$ok" ]; then
  tail -40 "$T/build.log"
  echo "ERROR: harness does not build against $REPO"
  exit 4
fi
echo "$stamp" > "$T/stamp"
if [ "${1:-}" = setup ]; then
  [ "${2:-}" = alt ] || exec bash "$HERE/run.sh" setup alt
  exit 0
fi
exec "$T/debug/zokverif" "$@"
