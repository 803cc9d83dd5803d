#!/bin/bash
# C18: native build with the counting allocator, address sanitizer build, interpreter build.
cd "$(dirname "$0")/.." || exit 2
bash tools/build.sh checked asan miri || exit 2
exec target/checked/vmon run C18
