#!/bin/bash
# build.sh ir|native [features] : compile /repo and the harness crate from the current working tree
K=$1; F=$2
cd "$(dirname "$0")/../harness" || exit 2
D=../target/$K${F:+-$F}; mkdir -p $D; D=$(cd $D && pwd)
exec 9>$D.lock; flock 9
T=x86_64-unknown-linux-gnu
rm -rf $D/$T/release/.fingerprint/pcics-* $D/$T/release/.fingerprint/vph-* $D/$T/release/deps/pcics-* $D/$T/release/deps/*pcics* $D/$T/release/deps/vph-* $D/$T/release/deps/*vph*
export CARGO_TARGET_DIR=$D CARGO_NET_OFFLINE=true
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
if [ $K = ir2 ]; then
  export RUSTC_BOOTSTRAP=1 CARGO_PROFILE_RELEASE_OPT_LEVEL=1
  export RUSTFLAGS="--cfg pcics_verif --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -C relocation-model=static -Z share-generics=no"
  cargo build --lib --release --offline --target $T ${F:+--features $F}
elif [ $K = ir ]; then
  export RUSTFLAGS="--cfg pcics_verif --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -C relocation-model=static"
  cargo build --lib --release --offline --target $T ${F:+--features $F}
else
  export RUSTFLAGS="--cfg pcics_verif"
  cargo build --bin replay --release --offline --target $T --features replay${F:+,$F}
fi
