#!/bin/bash
# Bundles upload-image.ts with a stand-in for the Irys library (which is not installed here) that
# only records what it is given, and runs one scenario.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
node="$(ls -d /opt/veriftools/node/node_modules)"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
cp "$here/main.mjs" "$here/lib.mjs" "$here/irys.mjs" "$w/"
cd "$w" || exit 2
"$node/.bin/esbuild" "$repo/ts-scripts/upload-image.ts" --bundle --platform=node --format=esm --log-level=error --outfile=upload.mjs --alias:@irys/sdk="$w/irys.mjs" || { echo "demo: build failed"; exit 2; }
exec_out="$(DEMO_DIR="$w" timeout 200 node main.mjs 2>&1)"; rc=$?
echo "$exec_out"
exit $rc
