#!/bin/bash
# Builds demo.rs (beside this file) against the rawdio crate in the current directory and runs it.
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; T="$(mktemp -d /tmp/demo.XXXXXX)"; trap '/bin/rm -rf "$T"' EXIT
mkdir -p "$T/src"; cp "$D/demo.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/Cargo.lock"
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nrawdio = { path = "%s" }\n[profile.dev]\ndebug = false\n' "$R" > "$T/Cargo.toml"
cd "$T" && export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTUP_TOOLCHAIN=nightly
cargo build --offline 2>"$T/log" || { tail -20 "$T/log"; exit 99; }
timeout 60 "$T/target/debug/demo"
