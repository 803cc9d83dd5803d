#!/bin/bash
# Prebuilds every build of the monitor; the checks rebuild what has changed since.
cd "$(dirname "$0")" || exit 2
exec bash tools/build.sh checked release dev asan miri
