#!/bin/bash
# Builds one scenario against the Rust client of /repo and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here"/*.rs "$w/src/"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
export CARGO_TARGET_DIR="$w/target" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTFLAGS=""
features='[]'; extra=''
if [ -f "$here/mock.rs" ]; then
  # the online part of the client: the dependencies built for the tests are used again when they are there
  features='["fetch", "wasm", "serde"]'
  extra='solana-client = "~2.3"
solana-sdk = "~2.3"
serde_json = "1"
base64 = "0.22"
async-trait = "0.1"'
  [ -d "$repo/target" ] && [ -w "$repo/target" ] && export CARGO_TARGET_DIR="$repo/target"
fi
patch=''
if grep -q demo_invoke "$here/main.rs"; then
  # the runtime's cross-program call is replaced by a function of main.rs that records what it is given
  cp -r "$(ls -d "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/solana-cpi-2.2.1 | head -1)" "$w/solana-cpi"
  perl -0pi -e 's/(#\[cfg\(not\(target_os = "solana"\)\)\]\n)    Ok\(\(\)\)/$1    unsafe { extern "Rust" { fn demo_invoke(i: &Instruction, a: &[AccountInfo], s: &[&[&[u8]]]) -> ProgramResult; } demo_invoke(instruction, account_infos, signers_seeds) }/' "$w/solana-cpi/src/lib.rs"
  patch='[patch.crates-io]
solana-cpi = { path = "solana-cpi" }'
fi
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
xorca = { path = "$repo/rust-client", features = $features }
solana-program = "~2.3"
solana-pubkey = "~2.4"
solana-instruction = "~2.3"
solana-account-info = "~2.3"
borsh = "^0.10"
$extra
[workspace]
$patch
T
cd "$w" && cargo build --offline -q > "$w/log" 2>&1 || { tail -40 "$w/log"; echo "demo: build failed"; exit 2; }
cp "$CARGO_TARGET_DIR/debug/demo" "$w/demo" && "$w/demo"
