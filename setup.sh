#!/bin/sh
# builds what the checks need, to warm the caches (each check rebuilds from /repo's working tree anyway)
cd "$(dirname "$0")" || exit 1
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
for f in base iso thetapriv2 sup festa; do
  a=""; [ $f = base ] || a="--features $f"
  (cd harness/ff && CARGO_TARGET_DIR="$PWD/../../build/ff-$f" cargo build -q $a 2>&1 | grep -E "^error" )
done
(cd harness/grp && CARGO_TARGET_DIR="$PWD/../../build/grp" cargo build -q 2>&1 | grep -E "^error")
(cd harness/kint && unset RUSTUP_TOOLCHAIN && CARGO_TARGET_DIR="$PWD/../../build/kint" cargo kani --harness sqrt_10 2>&1 | grep -E "^error|VERIFICATION")
(cd harness/kint && unset RUSTUP_TOOLCHAIN && CARGO_TARGET_DIR="$PWD/../../build/kint-w16" cargo kani --features w16 --harness sqrt_10 2>&1 | grep -E "^error|VERIFICATION")
(cd harness/fpk && unset RUSTUP_TOOLCHAIN && CARGO_TARGET_DIR="$PWD/../../build/fpk-kani" cargo kani --harness iszero 2>&1 | grep -E "^error|VERIFICATION")
(cd harness/fpb && unset RUSTUP_TOOLCHAIN && CARGO_TARGET_DIR="$PWD/../../build/fpb-kani" cargo kani -Z stubbing --harness pow_big_16 2>&1 | grep -E "^error|VERIFICATION")
(cd checks && python3 -c "import e1run; print(e1run.build()[1][-300:])")
(cd harness/cst && CARGO_TARGET_DIR="$PWD/../../build/cst" cargo build -q --offline 2>&1 | grep -E "^error")
exit 0
