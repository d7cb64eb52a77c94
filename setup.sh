#!/bin/bash
# Builds the replay drivers once, so that the checks only rebuild what changed.
cd "$(dirname "$0")/harness" && mkdir -p ../evidence
RUSTFLAGS="--cfg libmcaptcha_verif --cap-lints allow" CARGO_TARGET_DIR="$PWD/target" cargo build --offline --locked --quiet
