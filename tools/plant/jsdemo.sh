#!/bin/bash
# Bundles demo.ts with the TypeScript under js/src of the current directory and runs it under node,
# against the stand-ins beside this file. Exit 0: the property holds in the demonstrated situation.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
sed "s|\"REPO/|\"$repo/js/src/|" "$here/demo.ts" >"$tmp/demo.ts"
/opt/veriftools/node/node_modules/.bin/esbuild "$tmp/demo.ts" --bundle --platform=node --format=esm --target=node22 \
  --alias:bn.js="$here/bn.mjs" --alias:borsh="$here/borsh.mjs" --alias:@solana/web3.js="$here/web3.mjs" \
  --log-level=error --outfile="$tmp/demo.mjs" || exit 2
timeout 60 node "$tmp/demo.mjs"
