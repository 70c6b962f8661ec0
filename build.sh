#!/bin/bash
# build.sh GROUP...  - builds /verif/build/check_GROUP from /repo's working tree (library objects are cached by content).
set -u
V=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
OUT=${VERIF_BUILD:-$V/build}
mkdir -p "$OUT/gen" "$OUT/obj"
exec 9> "$OUT/lock"; flock 9
make -s -j8 -f "$V/harness/Makefile" V="$V" REPO="$REPO" OUT="$OUT" $(for g in "$@"; do echo "$OUT/check_$g"; done) > "$OUT/log" 2>&1
rc=$?
if [ $rc -ne 0 ]; then tail -60 "$OUT/log" >&2; echo "build.sh: build failed" >&2; exit 3; fi
