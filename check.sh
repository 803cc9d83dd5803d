#!/bin/bash
# check.sh PROPERTY: decides one property against /repo's current working tree.
# Exit 0: held. Exit 1 and a VIOLATION line: violated. Anything else: no verdict.
cd "$(dirname "$0")" || exit 2
export VMON_HOME="$PWD"
case "$1" in
  C04) profiles="checked release dev" ;;
  C18) exec bash tools/c18.sh ;;
  *)   profiles="checked" ;;
esac
bash tools/build.sh $profiles || exit 2
exec target/checked/vmon run "$1"
