#!/bin/bash
# usage: build.sh ir|gen  -- builds the harness binary and its LLVM IR from /repo's current tree
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
H=$1
W=$V/.work
mkdir -p $W
. /opt/vp/env.sh >/dev/null 2>&1 || true
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$W/target RUSTFLAGS="--cfg burn_onnx_verif -A unexpected_cfgs"
LB=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
python3 $V/tools/gen_ws.py $W/ws
gcc -O1 -c $V/symrt/native.c -o $W/symrt_native.o
(cd $V/symx && CARGO_TARGET_DIR=$W/symx-target cargo build --offline --release -q 2>$W/symx-build.log || { cat $W/symx-build.log; exit 1; })
cd $W/ws
rm -f $W/target/sym/deps/harness_$H-*.bc
build() { cargo rustc --offline --profile sym -p harness-$H --bin harness-$H -q -- -C save-temps -C no-vectorize-loops -C no-vectorize-slp -C link-arg=$W/symrt_native.o -A warnings; }
build
BC=$(ls -S $W/target/sym/deps/harness_$H-*.rcgu.bc 2>/dev/null | grep -v -e 'lto\.' -e no-opt | head -1 || true)
if [ -z "$BC" ] && [ ! -e $W/$H.ll ]; then
  # up to date, but an earlier run was cut short before the IR was written
  cargo clean --offline --profile sym -p harness-$H -q
  build
  BC=$(ls -S $W/target/sym/deps/harness_$H-*.rcgu.bc | grep -v -e 'lto\.' -e no-opt | head -1)
fi
if [ -n "$BC" ]; then
  rm -f $W/$H.ll
  $LB/llvm-dis $BC -o $W/$H.ll.tmp
  mv $W/$H.ll.tmp $W/$H.ll
  rm -f $W/target/sym/deps/harness_$H-*.bc $W/target/sym/deps/harness_$H-*.rcgu.*
fi
ls -la $W/$H.ll
