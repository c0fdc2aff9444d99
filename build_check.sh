#!/bin/bash
# build_check.sh <pXX> <out>: build one check binary against /repo's tree.
# checks/<pXX>/BUILD: "instr" puts decision points of a controlled scheduler
# into the program (overlay), "race" builds with the race detector.
set -e
cd "$(dirname "$0")/harness"
flags=()
how=$(cat "checks/$1/BUILD" 2>/dev/null || true)
case "$how" in *instr*)
  mod=$(go list -m -f '{{.Dir}}' github.com/innerr/ticat)
  ov=$(mktemp -d "$2.ov.XXXXXX")
  trap 'rm -rf "$ov"' EXIT
  go run ./instr "$mod" "$ov" "$PWD/instr/src"
  flags+=(-overlay "$ov/overlay.json")
esac
case "$how" in *race*)
  export CGO_ENABLED=1
  flags+=(-race)
esac
go build "${flags[@]}" -o "$2" "./checks/$1"
