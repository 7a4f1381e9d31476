#!/bin/bash
# check.sh ID [engine options]: builds the check of property ID from /repo's
# current tree and runs it.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
id="$1"; shift
name=$(echo "$id" | tr 'A-Z' 'a-z')
. ./state.sh
if ! make -s -j"$(nproc)" "$PWD/build/bin/$name" >build.$name.log 2>&1; then
  cat build.$name.log
  echo "BUILD FAILED for $id"
  rm -f "$PWD/build.$name.log"
  exit 2
fi
rm -f "$PWD/build.$name.log"
exec "$PWD/build/bin/$name" "$@"
