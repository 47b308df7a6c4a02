#!/bin/bash
# build.sh OUT: bundles the repository's TypeScript decoders with the comparer.
out=$1
tools=/opt/veriftools/node/node_modules
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
sed 's|"REPO/|"/repo/js/src/|' /verif/js/reader.ts >"$tmp/reader.ts"
"$tools/.bin/esbuild" "$tmp/reader.ts" --bundle --platform=node --format=esm --target=node22 \
  --alias:bn.js=/verif/js/shim/bn.mjs --alias:borsh=/verif/js/shim/borsh.mjs \
  --alias:@solana/web3.js=/verif/js/shim/web3.mjs --log-level=error --outfile="$tmp/reader.mjs" || exit 3
mkdir -p "$(dirname "$out")" && mv "$tmp/reader.mjs" "$out"
