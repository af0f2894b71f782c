#!/bin/bash
# Builds everything once, which shows that it builds and warms the Go cache.
HERE=$(cd "$(dirname "$0")" && pwd)
SCRATCH=$(mktemp -d /tmp/tru-mc.XXXXXX) || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
bash "$HERE/mc/build.sh" "$SCRATCH" || exit 2
"$SCRATCH/mc" -list
