#!/bin/bash
# Bundles the TypeScript client of the current directory with small stand-ins for its peer
# dependencies (which are not installed here) and runs one scenario.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
node="$(ls -d /opt/veriftools/node/node_modules)"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
cp "$here/main.mjs" "$here/kit.mjs" "$w/"
echo "export * from '$repo/js-client/src/index.ts';" > "$w/client.ts"
cd "$w" && "$node/.bin/esbuild" main.mjs --bundle --platform=node --format=esm --log-level=error --outfile=out.mjs \
  --alias:@solana/kit=./kit.mjs --alias:@solana/addresses=./kit.mjs --alias:@solana-program/token=./kit.mjs || { echo "demo: build failed"; exit 2; }
exec_out="$(timeout 120 node out.mjs 2>&1)"; rc=$?
echo "$exec_out"
exit $rc
