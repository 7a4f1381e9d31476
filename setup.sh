#!/bin/bash
# Builds all checks once; every check also rebuilds what it needs itself.
cd "$(dirname "$0")" || exit 2
. ./state.sh
make -s -j"$(nproc)" all
