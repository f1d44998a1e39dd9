#!/bin/bash
# developer helper: n.sh CRATE FEATURES: build natively and run every contract for a while
c=$1; f=$2; n=${3:-3000}
export RUSTUP_TOOLCHAIN=1.96.0 CARGO_NET_OFFLINE=true PGRX_HOME=/opt/vp/pgrx-home TSDBTK_VERIF=/verif/hooks RUSTFLAGS="--cfg tsdbtk_verif"
unset CARGO_TARGET_DIR
[ $c = hxe ] && RUSTFLAGS="$RUSTFLAGS -C link-args=-Wl,--unresolved-symbols=ignore-all -C relocation-model=pic"
cd /verif/$c && cargo build --offline --features $f --target-dir /tmp/n-$c 2>&1 | grep -E "^error" -A14 | head -80
for h in $(/tmp/n-$c/debug/$c list | sed 's/executed //'); do echo "$h $(timeout 60 /tmp/n-$c/debug/$c run $h $n 20 1 2>&1 | tail -2 | sed -E 's/values=\S*/values=…/')"; done
