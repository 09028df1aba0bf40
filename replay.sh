#!/bin/bash
# replay.sh FILE: executes a replay file against /repo's current working tree.
# Exit 1: fails exactly as recorded; 0: does not fail; 3: fails differently; 2: trouble.
verif=$(cd "$(dirname "$0")" && pwd)
file=$(readlink -f "$1")
tmp=$(mktemp -d "${TMPDIR:-/tmp}/uaxcheck.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
"$verif/build.sh" "$tmp" >"$tmp/build.log" 2>&1 || { tail -n 40 "$tmp/build.log" >&2; exit 2; }
bin=$tmp/sim
grep -q '"race_build": true' "$file" && bin=$tmp/simr
GOMAXPROCS=1 SIM_SITES=$tmp/sites.json GORACE="exitcode=0 halt_on_error=0 history_size=7 suppress_equal_stacks=0 suppress_equal_addresses=0" "$bin" replay -in "$file"
