#!/bin/bash
# usage: run.sh C01 | run.sh replay FILE | run.sh build DIR
# Builds the simulator from /repo's current working tree and runs one check.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS="${GOFLAGS:--mod=vendor}" GOPROXY=off GOTOOLCHAIN=local
WORK="$(mktemp -d "${TMPDIR:-/tmp}/steve-sim.XXXXXX")" || exit 2
cleanup() { case "$WORK" in /tmp/steve-sim.*|"${TMPDIR:-/nonexistent}"/steve-sim.*) rm -rf "$WORK";; esac; }
trap cleanup EXIT
build() {
  (cd "$HERE/tools/instrument" && GOFLAGS= go build -o "$WORK/instrument" .) || return 2
  (cd "$REPO" && "$WORK/instrument" -repo "$REPO" -sim "$HERE/sim" -out "$WORK/out") >"$WORK/instr.log" 2>&1 || { cat "$WORK/instr.log" >&2; return 2; }
  (cd "$REPO" && go build -buildvcs=false -overlay "$WORK/out/overlay.json" -ldflags=-checklinkname=0 -o "$WORK/harness" ./verifsim/harness) || return 2
}
case "${1:-}" in
  build) build || exit 2; cp "$WORK/harness" "$2";;
  replay) build || exit 2; "$WORK/harness" replay -v -file "$2"; exit $?;;
  C*) build || exit 2
    "$WORK/harness" check -prop "$1" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -verif "$HERE" -instr "$WORK/out/instrumented.json" "${@:2}"
    exit $?;;
  *) echo "usage: run.sh C01.. | replay FILE | build OUT" >&2; exit 2;;
esac
