#!/bin/bash
# builds the harness crates once (dependencies included), so that a check only recompiles what changed in /repo
cd "$(dirname "$0")/.." || exit 1
mkdir -p build evidence
export CARGO_NET_OFFLINE=true PGRX_HOME=/opt/vp/pgrx-home TSDBTK_VERIF=$PWD/hooks RUSTFLAGS="--cfg tsdbtk_verif"
unset RUSTUP_TOOLCHAIN CARGO_TARGET_DIR
V=$PWD
for c in hx hxe; do
  python3 bin/fresh.py forget $V/build/$c
  python3 bin/fresh.py forget $V/build/$c-native
  ( cd $c && cargo kani --features c01 -Z stubbing --only-codegen --target-dir $V/build/$c > $V/build/setup.$c.kani.log 2>&1 && python3 $V/bin/fresh.py remember $V/build/$c ) &
  ( cd $c; extra=""; [ $c = hxe ] && extra=" -C link-args=-Wl,--unresolved-symbols=ignore-all -C relocation-model=pic"
    RUSTUP_TOOLCHAIN=1.96.0 RUSTFLAGS="$RUSTFLAGS$extra" cargo build --offline --features c01 --target-dir $V/build/$c-native > $V/build/setup.$c.native.log 2>&1 && python3 $V/bin/fresh.py remember $V/build/$c-native ) &
done
wait
exit 0
