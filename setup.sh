#!/bin/sh
# builds the conformance drivers from /repo's working tree (checks rebuild incrementally)
cd "$(dirname "$0")/harness" || exit 1
export HOME=/root RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings --cfg vp_hooks" CARGO_TERM_COLOR=never
unset CARGO_PROFILE_DEV_OPT_LEVEL
python3 ../vf/stamp.py "$PWD" "$PWD/target"
CARGO_TARGET_DIR="$PWD/target" cargo build --offline --workspace || exit 1
# the parallel build (P28)
P="groth16 marlin plonk bulletproofs spartan gkr asvc mpc"
A=""; F=""
for p in $P; do A="$A -p h-$p"; F="$F,h-$p/parallel"; done
python3 ../vf/stamp.py "$PWD" "$PWD/target/par"
CARGO_TARGET_DIR="$PWD/target/par" cargo build --offline $A --features "${F#,}" || exit 1
# the on-chain contracts (P33); one that does not compile is for the check to report
cd ../harness_ckb || exit 1
python3 ../vf/stamp.py "$PWD" "$PWD/target"
CARGO_TARGET_DIR="$PWD/target" cargo build --offline --keep-going || true
