export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg zok_verif --check-cfg=cfg(zok_verif) -A warnings"
