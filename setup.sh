#!/bin/bash
# Builds every check once, so that runs on an unchanged tree start at once.
. /verif/env.sh
cd /verif/harness && cargo build --release --offline --locked -q --bins --keep-going
cargo build --profile plain --offline --locked -q --keep-going $(for c in 11 14 16 19 20 21 22 23 24 28 30 31 34; do echo --bin c$c; done)
cargo build --profile slow --offline --locked -q --bin c34
cd /repo && CARGO_TARGET_DIR=/verif/target/tools cargo build --offline --locked -q --bins --keep-going
cd /repo && CARGO_TARGET_DIR=/verif/target/tools cargo build --release --offline --locked -q --bins --keep-going
