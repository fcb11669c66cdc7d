#!/bin/bash
# replay.sh FILE   re-runs a recorded failing case against /repo's current tree
here=$(cd "$(dirname "$0")" && pwd)
f=$(realpath "$1") || exit 2
cd "$here" || exit 2
"$here/build.sh" || exit 2
id=$(sed -n 's/^property: *//p' "$f")
"$here/build.sh" $("$here/target/driver/release/vdriver" variants "$id") || exit 2
S=$(mktemp -d "$here/scratch.XXXXXX") || exit 2
trap 'rm -rf "$S"' EXIT
"$here/target/driver/release/vdriver" replay "$f" --scratch "$S"
