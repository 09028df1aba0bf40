#!/bin/bash
# check.sh ID [SECONDS]: decides property ID by simulation of /repo's current working tree.
# VERIF_SEED is the seed of all random choices, VERIF_TIER is quick or thorough.
# Exit 0: held; 1: VIOLATION printed; 2: the check itself failed.
verif=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${VERIF_TIER:-quick}
secs=$2
if [ -z "$secs" ]; then
  secs=25
  [ "$tier" = thorough ] && secs=720
fi
tmp=$(mktemp -d "${TMPDIR:-/tmp}/uaxcheck.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
if ! "$verif/build.sh" "$tmp" >"$tmp/build.log" 2>&1; then
  echo "check.sh: build failed" >&2
  tail -n 40 "$tmp/build.log" >&2
  exit 2
fi
"$tmp/sim" check -prop "$id" -seed "${VERIF_SEED:-1}" -tier "$tier" -secs "$secs" \
  -racebin "$tmp/simr" -verif "$verif" -sites "$tmp/sites.json"
