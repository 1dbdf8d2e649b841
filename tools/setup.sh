#!/bin/bash
# builds the executor and every harness from a clean checkout and runs the executor's self test
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
for h in $(ls $V/harness); do [ ! -e $V/harness/$h/src/main.rs ] || bash $V/tools/build.sh $h; done
$V/.work/symx-target/release/symx selftest 300000
