#!/bin/bash
# run.sh <ID> [--replay FILE | --case KEY | --list]: build the check of one
# property from /repo's current working tree and run it.
# Tier from VERIF_TIER (quick | thorough), default quick.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
id="$1"; shift
low=$(echo "$id" | tr 'A-Z' 'a-z')
mkdir -p "$VERIF_DIR/build"
work=""
out="$VERIF_DIR/build/$low.$$"
trap 'rm -rf "$out" "$out".*; [ -n "$work" ] && rm -rf "$work"' EXIT
if ! bash ./build_check.sh "$low" "$out"; then
  echo "BUILD FAILED for $id"
  exit 2
fi
# scratch files of the cases: in memory when there is room and it can execute
if [ -z "$VERIF_TMP" ] && [ "$(df -Pk /dev/shm 2>/dev/null | awk 'NR==2{print $4}')" -gt 2000000 ] 2>/dev/null; then
  work=$(mktemp -d /dev/shm/verif.XXXXXX 2>/dev/null)
  if [ -n "$work" ]; then
    printf '#!/bin/sh\nexit 0\n' > "$work/x"; chmod +x "$work/x"
    "$work/x" 2>/dev/null || { rm -rf "$work"; work=""; }
  fi
fi
[ -z "$work" ] && work=$(mktemp -d "${VERIF_TMP:-${TMPDIR:-/tmp}}/verif.XXXXXX")
chmod 755 "$work"
export TMPDIR="$work"
mv "$out" "$work/$low" || exit 2
chmod 755 "$work/$low"
"$work/$low" "$@"
