#!/bin/bash
# Builds the verifier, and the contracts together with /repo's current sources: once to LLVM
# IR (what the verifier reads) and once natively (what counterexamples are replayed on).
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$V/build"
exec 9>"$V/build/.lock"
flock 9
export CARGO_NET_OFFLINE=true
if [ "$1" != "contracts" ] || [ ! -x "$V/build/irv/release/irv" ]; then
  cargo build --release --offline --quiet --manifest-path "$V/irv/Cargo.toml" --target-dir "$V/build/irv" 2>"$V/build/irv.log"
fi
[ "$1" = "verifier" ] && exit 0
python3 "$V/tools/rmath.py" "$V/build/rmath"
cd "$V/contracts"
# cargo notices changes by time stamp; make sure it notices changes of content
H="$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; cd "$V/contracts" && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)"
if [ "$H" != "$(cat "$V/build/.hash" 2>/dev/null)" ]; then
  find "$V/build/ir" "$V/build/native" -path '*/.fingerprint/*' \( -path '*/rcrypto*' -o -path '*/contracts-*' \) -type f -delete 2>/dev/null || true
fi
RUSTFLAGS="-Awarnings --cfg rcrypto_verif" cargo rustc --lib --release --offline --quiet --target-dir "$V/build/ir" -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp >"$V/build/ir.log" 2>&1 || { tail -40 "$V/build/ir.log" >&2; exit 2; }
RUSTFLAGS="-Awarnings --cfg rcrypto_verif" cargo build --lib --offline --quiet --features native --target-dir "$V/build/native" >"$V/build/native.log" 2>&1 || { tail -40 "$V/build/native.log" >&2; exit 2; }
cp -f "$V/build/ir/release/deps/contracts.ll" "$V/build/contracts.ll"
cp -f "$V/build/native/debug/libcontracts.so" "$V/build/libnative.so"
echo "$H" > "$V/build/.hash"
