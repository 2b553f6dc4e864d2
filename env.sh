export RUSTUP_TOOLCHAIN=nightly-2025-05-01 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 RUSTC_WRAPPER=
export CARGO_TARGET_DIR=/verif/target HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
