# the toolchain and registry cache of the repository itself
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.71.1 RUSTUP_AUTO_INSTALL=0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="${PBT_TARGET:-/verif/harness/target}"
