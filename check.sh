#!/bin/bash
# check.sh ID [quick|thorough]   0: held, 1: VIOLATION printed, other: no answer
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
id=$1
tier=${2:-${VERIF_TIER:-quick}}
"$here/build.sh" || exit 2
export VH_BINS=$here/target
D=$here/target/driver/release/vdriver
vs=$("$D" variants "$id") || exit 2
"$here/build.sh" $vs || exit 2
mkdir -p evidence replays
S=$(mktemp -d "$here/scratch.XXXXXX") || exit 2
trap 'rm -rf "$S"' EXIT
if [ "$tier" = thorough ]; then scale=4; else scale=5; fi
"$D" run "$id" --tier "$tier" --scale "${VH_SCALE:-$scale}" --seed "${VERIF_SEED:-1}" --scratch "$S" \
    --replays "$here/replays" --evidence "$here/evidence/$id.json" --known "$here/known-findings.txt" "${@:3}"
