#!/bin/bash
# Builds the monitor binary from /repo's working tree. Usage: build.sh fast|san
# Nothing but ccache (keyed by the preprocessed content) is taken over from former builds.
set -e
cd "$(dirname "$0")"
mkdir -p build
rm -rf "$PWD/build/$1"
python3 mkninja.py "$1"
export CCACHE_DIR=$PWD/build/ccache CCACHE_MAXSIZE=2G CCACHE_COMPRESS=1 CCACHE_NOHASHDIR=1
exec ninja -C build/"$1" -f build.ninja mon
