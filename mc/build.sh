#!/bin/bash
# build.sh OUTDIR: builds the model-checking binary from /repo's working tree
# into OUTDIR (a scratch directory): OUTDIR/mc, and the uninstrumented helper
# OUTDIR/ptyhelper.
set -e
OUT=$1
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS="-mod=mod"
export HOME=${HOME:-/root}
mkdir -p "$OUT/src" "$OUT/mod/zz" "$OUT/instr"
# copy of the sources, without tests, examples and history
(cd "$REPO" && find . \( -name .git -o -name examples -o -name testdata \) -prune -o -type f \( -name '*.go' -o -name go.mod -o -name go.sum -o -name '*.s' -o -name '*.h' \) ! -name '*_test.go' -print0 | tar --null -T - -cf -) | tar -C "$OUT/src" -xf -
cp -r "$HERE/instr/." "$OUT/instr/"
cp -r "$HERE/rt" "$OUT/mod/zz/rt"
cp -r "$HERE/shim/." "$OUT/mod/zz/"
cp "$OUT/src/go.mod" "$OUT/mod/go.mod"
[ -f "$OUT/src/go.sum" ] && cp "$OUT/src/go.sum" "$OUT/mod/go.sum"
cat >> "$OUT/mod/go.mod" <<EOM

require verif.local/zz v0.0.0

replace verif.local/zz => ./zz
EOM
printf 'module verif.local/zz\n\ngo 1.21\n' > "$OUT/mod/zz/go.mod"
(cd "$OUT/instr" && go build -o "$OUT/instrbin" .)
"$OUT/instrbin" "$OUT/src" "$OUT/mod" || exit 3
cp -r "$HERE/harness" "$OUT/mod/zzharness"
(cd "$OUT/mod" && go build -o "$OUT/mc" ./zzharness)
# the terminal package on a real pseudo terminal, not instrumented
mkdir -p "$OUT/src/zzpty"
cp "$HERE/pty/main.go" "$OUT/src/zzpty/main.go"
(cd "$OUT/src" && go build -o "$OUT/ptyhelper" ./zzpty)
