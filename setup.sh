#!/bin/bash
# Builds everything once, so that the go build cache is warm.
verif=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d "${TMPDIR:-/tmp}/uaxcheck.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
"$verif/build.sh" "$tmp" || exit 1
mkdir -p "$verif/evidence" "$verif/out"
