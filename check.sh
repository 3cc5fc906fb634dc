#!/bin/bash
# check.sh PROPERTY [--replay FILE]: lays out the workspace from /repo's working tree, builds the
# harness that PROPERTY belongs to, and runs the check. Exit 0: held; 1: VIOLATION; 2: no verdict.
cd "$(dirname "$0")" || exit 2
. ./env.sh
export MC_VERIF=$PWD
area=$(awk -v p="$1" '$1 == p { print $2 }' areas.txt)
[ -n "$area" ] || { echo "no such property: $1" >&2; exit 2; }
mkdir -p build
exec 9>build/lock
flock 9
SECONDS=0
if ! { python3 rig/gen.py && (cd build/ws && cargo build --offline -q -p "h-$area"); } >build/build-$area.log 2>&1; then
  cat build/build-$area.log >&2
  echo "the build failed: no verdict" >&2
  exit 2
fi
echo "laid out and built in $SECONDS s"
bin=build/bin-$1-$$
cp build/target/debug/h-$area "$bin"
flock -u 9
"$bin" "$@" 9>&-
code=$?
rm -f "$PWD/$bin"
exit $code
