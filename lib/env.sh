# The build environment of every harness: the toolchain and registry the repository builds with.
export RUSTUP_TOOLCHAIN=1.77.2 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1
export RUSTFLAGS=--cap-lints=warn
export PATH="$PATH:/usr/local/bin:/root/.cargo/bin"
export CARGO_TARGET_DIR=/verif/target/core
