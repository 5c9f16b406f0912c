#!/bin/bash
# Builds everything once (nothing of it is kept but the build cache).
cd "$(dirname "$0")" || exit 2
. ./env.sh
out=$(mktemp -d /tmp/vh-bin.XXXXXX) || exit 2
trap 'rm -rf "$out"' EXIT
build "$out/vh" && build "$out/vhr" -race && build "$out/vhv" -tags vss && build "$out/vhe" -tags exp && build_web "$out/web.test" -race && build_web "$out/demo.test" && echo "built"
