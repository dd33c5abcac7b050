# common build environment of setup.sh and run.sh
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
# the content hash makes cargo rebuild whenever the sources differ, whatever their mtimes say
mc_src=$(cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha1sum | sha1sum | cut -c1-16)
export RUSTC_WRAPPER= RUSTFLAGS="--cap-lints allow --cfg mc_src_$mc_src" CARGO_TARGET_DIR=/verif/target
export VERIF_DIR=/verif
unset CARGO_INCREMENTAL
