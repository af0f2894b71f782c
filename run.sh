#!/bin/bash
# run.sh PROPERTY quick|thorough [--replay FILE] [--only SCENARIO]
# Builds the model checker from /repo's working tree in a scratch directory
# and explores one property. Exit 0: held, 1: violated, 2: no answer.
HERE=$(cd "$(dirname "$0")" && pwd)
PROP=$1; TIER=${2:-quick}; shift; [ $# -gt 0 ] && shift
ARGS=()
LIMIT=
while [ $# -gt 0 ]; do
	case "$1" in
	--replay) ARGS+=(-replay "$(realpath "$2")"); shift 2 ;;
	--only) ARGS+=(-only "$2"); shift 2 ;;
	--limit) LIMIT=$2; shift 2 ;;
	*) echo "unknown argument $1"; exit 2 ;;
	esac
done
[ -n "$LIMIT" ] || { LIMIT=80s; [ "$PROP" = C14 ] && LIMIT=100s; [ "$TIER" = thorough ] && LIMIT=600s; }
SCRATCH=$(mktemp -d /tmp/tru-mc.XXXXXX) || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
trap 'exit 2' INT TERM HUP
if ! bash "$HERE/mc/build.sh" "$SCRATCH" >"$SCRATCH/build.log" 2>&1; then
	echo "error: the tree cannot be built for checking"
	tail -40 "$SCRATCH/build.log"
	exit 2
fi
mkdir -p "$SCRATCH/work" "$HERE/evidence" "$HERE/replays"
export VERIF_KNOWN="$HERE/known-findings.json" VERIF_BUILD="$SCRATCH"
"$SCRATCH/mc" -prop "$PROP" -tier "$TIER" -limit "$LIMIT" -dir "$SCRATCH/work" \
	-evidence "$HERE/evidence/$PROP.json" -replays "$HERE/replays" -seed "${VERIF_SEED:-1}" "${ARGS[@]}"
