#!/bin/bash
# Compile the harnesses together with /repo's current source to one LLVM IR module.  usage: build_ir.sh WORK_DIR OUT.ll
# The only difference from an ordinary build: Fixed::from_num and Fixed::to_num of the `fixed` dependency are marked
# #[inline(never)], so that the executor sees calls to them (it gives them their exact SMT meaning).
set -e
H="$(cd "$(dirname "$0")" && pwd)"; W="$1"; mkdir -p "$W/src"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR="$W/target" CARGO_INCREMENTAL=0
/bin/rm -rf "$W/src/h" && mkdir -p "$W/src/h" && cp -p -r "$H/src" "$H/Cargo.toml" "$H/Cargo.lock" "$W/src/h/"
cd "$W/src/h"
if [ ! -d "$W/src/fixed" ]; then
  F=$(dirname "$(cargo metadata --offline --format-version 1 2>/dev/null | python3 -c 'import json,sys; print([p["manifest_path"] for p in json.load(sys.stdin)["packages"] if p["name"]=="fixed"][0])')")
  cp -r "$F" "$W/src/fixed.tmp"
  python3 - "$W/src/fixed.tmp/src/macros_from_to.rs" <<'P'
import re, sys
p = sys.argv[1]; s = open(p).read()
s, n = re.subn(r'#\[inline\](\s*#\[track_caller\](?:\s*#\[must_use\])?\s*pub fn (?:from_num|to_num)<)', r'#[inline(never)]\1', s)
assert n == 2, n
open(p, "w").write(s)
P
  mv "$W/src/fixed.tmp" "$W/src/fixed"
fi
printf '\n[patch.crates-io]\nfixed = { path = "../fixed" }\n' >> Cargo.toml
cargo rustc --release --offline --lib --crate-type staticlib -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp >"$W/log" 2>&1 || { tail -40 "$W/log" >&2; exit 1; }
LL=$(find "$W/target/release" -name "harness-*.ll" | head -1)
"$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin/opt" -S -passes='strip-dead-debug-info' --strip-debug "$LL" -o "$2" 2>/dev/null || "$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin/opt" -S --strip-debug "$LL" -o "$2"
