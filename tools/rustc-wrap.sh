#!/bin/bash
# Cargo's RUSTC_WRAPPER. In the profile `chain` the program under test is compiled with its
# target_os = "solana" lines in place of the host ones; everything else is compiled as it is.
case " $* " in
  *" --crate-name asset_agnostic_orderbook "*"/chain/"*) exec "$@" --cfg 'target_os="solana"' ;;
esac
exec "$@"
