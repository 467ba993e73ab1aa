#!/bin/bash
# builds the MIR exporter (nightly rustc driver, offline)
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=nightly
(cd mirdump && env -u RUSTFLAGS cargo build --offline)
