#!/bin/bash
# usage: dump.sh OUT.json   -- export the MIR of /repo's current working tree
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(realpath -m "$1")
repo=${WEBPARSE_REPO:-/repo}
drv="$here/mirdump/target/debug/mirdump"
export RUSTUP_TOOLCHAIN=nightly
sys=$(rustc --print sysroot)
export LD_LIBRARY_PATH="$sys/lib"
if [ ! -x "$drv" ]; then (cd "$here/mirdump" && env -u RUSTFLAGS cargo build --offline >&2); fi
tgt=$(mktemp -d /tmp/mirdump.XXXXXX)
trap 'rm -rf "$tgt"' EXIT
cd "$repo"
rm -f "$out"
env -u RUSTFLAGS MIRDUMP_OUT="$out" RUSTC_WORKSPACE_WRAPPER="$drv" CARGO_TARGET_DIR="$tgt" CARGO_INCREMENTAL=0 \
  cargo check --lib --offline -q >&2
test -s "$out"
