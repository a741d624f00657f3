export HOME=/root CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH=$PATH:/root/.cargo/bin RUSTC_WRAPPER=/verif/tools/rustc-wrap.sh
unset RUST_LOG RUSTFLAGS CARGO_TARGET_DIR
