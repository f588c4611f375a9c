#!/bin/bash
# Builds what the checks need under /verif/build: the analysis driver and a `core`
# whose metadata carries the MIR of every function.
set -eu
here=$(cd "$(dirname "$0")/.." && pwd)
build=$here/build
mkdir -p "$build"
exec 9> "$build/.lock"
flock 9

TC=nightly
S=$(rustc +$TC --print sysroot)
SRC=$S/lib/rustlib/src/rust/library/core/src/lib.rs
stamp=$( (rustc +$TC -vV; cat "$here/engine/Cargo.toml" "$here"/engine/src/*.rs "$here/tools/setup.sh") | sha256sum | cut -c1-32)
if [ -f "$build/stamp" ] && [ "$(cat "$build/stamp")" = "$stamp" ] && [ -x "$build/bitflow" ]; then
    exit 0
fi

CARGO_TARGET_DIR=$build/engine-target RUSTFLAGS= cargo +$TC build --release --offline \
    --manifest-path "$here/engine/Cargo.toml" >&2
cp "$build/engine-target/release/bitflow" "$build/bitflow.new"
mv "$build/bitflow.new" "$build/bitflow"

# one metadata-only sysroot per target and assertion setting
core() { # target dir debug
    local lib=$build/$2/lib/rustlib/$1/lib
    mkdir -p "$lib"
    if [ -f "$lib/libcore-0000.rmeta" ] && [ "$(cat "$lib/stamp" 2>/dev/null)" = "$(rustc +$TC -vV | sha256sum) $3" ]; then
        return
    fi
    rustc +$TC --edition 2024 --target "$1" --crate-name core --crate-type rlib --emit metadata \
        -Zalways-encode-mir -Zforce-unstable-if-unmarked -Zmir-opt-level=0 \
        -Cdebug-assertions=$3 -Coverflow-checks=$3 -Cpanic=abort --cap-lints allow \
        -o "$lib/libcore-0000.rmeta" "$SRC" >&2
    printf '%s\n' '#![feature(compiler_builtins)]' '#![allow(internal_features)]' '#![compiler_builtins]' '#![no_std]' > "$build/$2/cb.rs"
    rustc +$TC --edition 2024 --target "$1" --sysroot "$build/$2" --crate-name compiler_builtins --crate-type rlib \
        --emit metadata -Zforce-unstable-if-unmarked -Cpanic=abort --cap-lints allow \
        -o "$lib/libcompiler_builtins-0000.rmeta" "$build/$2/cb.rs" >&2
    echo "$(rustc +$TC -vV | sha256sum) $3" > "$lib/stamp"
}
core x86_64-unknown-linux-gnu sysroot-64 off &
core i686-unknown-linux-gnu sysroot-32 off &
wait
[ -f "$build/sysroot-64/lib/rustlib/x86_64-unknown-linux-gnu/lib/stamp" ]
[ -f "$build/sysroot-32/lib/rustlib/i686-unknown-linux-gnu/lib/stamp" ]
echo "$stamp" > "$build/stamp"
