#!/bin/bash
# run.sh PROPERTY quick|thorough     decide one property against /repo's working tree
# run.sh replay FILE                 re-execute a replay file
# run.sh det [PROPERTY]              determinism proof: every seed several times in separate processes
# run.sh debug PROPERTY FROM COUNT   print single runs
# The code under test is instrumented into a scratch overlay outside /repo and
# built from /repo's working tree; nothing in /repo is written.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
WORK=$(mktemp -d "${TMPDIR:-/tmp}/vsim.XXXXXX") || exit 3
cleanup() { rm -rf "$WORK"; }
trap cleanup EXIT
trap 'exit 3' INT TERM

build() { # mode
    rm -rf "$WORK/out"
    "$WORK/instr" -repo "$REPO" -out "$WORK/out" -harness "$VERIF/harness" -mode "$1" || return 1
    (cd "$REPO" && go test -c -vet=off -overlay "$WORK/out/overlay.json" -o "$WORK/vs.test" .)
}

(cd "$VERIF/instr" && go build -buildvcs=false -o "$WORK/instr" .) || { echo "cannot build the instrumenter" >&2; exit 3; }
built=
for m in full plain light; do
    if build $m 2> "$WORK/err"; then built=1; break; fi
    cat "$WORK/err" >&2
done
[ -n "$built" ] || { echo "cannot build $REPO with the simulator" >&2; exit 3; }
export VS_INSTR=$(cat "$WORK/out/mode")
[ "$m" = plain ] && VS_INSTR=plain
export VS_VERIF=$VERIF
cd "$VERIF"
case "${1:-}" in
replay) VS_MODE=replay VS_FILE=$(realpath "$2") "$WORK/vs.test" ;;
det) VS_MODE=det VS_PROP="${2:-}" "$WORK/vs.test" ;;
debug) VS_MODE=run VS_PROP=$2 VS_FROM=$3 VS_RUNS=$4 "$WORK/vs.test" ;;
*) VS_MODE=check VS_PROP=$1 VS_TIER=${2:-quick} "$WORK/vs.test" ;;
esac
