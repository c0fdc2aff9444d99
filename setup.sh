#!/bin/bash
# Warm the Go build cache with everything the checks need (offline).
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p build evidence
out=$(mktemp -d) || exit 1
trap 'rm -rf "$out"' EXIT
ls harness/checks | xargs -P 4 -I{} ./build_check.sh {} "$out/{}" || exit 1
