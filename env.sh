export RUSTUP_TOOLCHAIN=1.83.0 RUSTC_WRAPPER= CARGO_TARGET_DIR=/verif/build/target CARGO_INCREMENTAL=1
