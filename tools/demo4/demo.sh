#!/bin/bash
# Bundles the scripts of the current directory's ts-scripts with small stand-ins for the Solana
# libraries (which are not installed here) and runs one scenario against a described chain.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
node="$(ls -d /opt/veriftools/node/node_modules)"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
cp "$here/main.mjs" "$here/web3.mjs" "$here/kit.mjs" "$here/lib.mjs" "$w/"
mkdir "$w/out" "$w/out/keypairs" "$w/bin"
cd "$w" || exit 2
for s in "$repo"/ts-scripts/*.ts; do
  case "$s" in */constants.ts | */upload-image.ts) continue ;; esac
  n="$(basename "$s" .ts)"
  "$node/.bin/esbuild" "$s" --bundle --platform=node --format=esm --log-level=error "--outfile=out/$n.mjs" \
    --alias:@solana/web3.js="$w/web3.mjs" --alias:@solana/spl-token="$w/web3.mjs" --alias:@orca-so/xorca="$repo/js-client/src/index.ts" \
    --alias:@solana/kit="$w/kit.mjs" --alias:@solana/addresses="$w/kit.mjs" --alias:@solana-program/token="$w/kit.mjs" || { echo "demo: build failed"; exit 2; }
done
exec_out="$(DEMO_DIR="$w" timeout 200 node main.mjs 2>&1)"; rc=$?
echo "$exec_out"
exit $rc
