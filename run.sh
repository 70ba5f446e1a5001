#!/bin/bash
# usage: run.sh PROP quick|thorough   |  run.sh replay FILE  |  run.sh build OUT
# Builds the monitor binary from /repo's current working tree and runs one check.
set -u
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
SCR="$(mktemp -d "${TMPDIR:-/tmp}/lngrun.XXXXXX")" || exit 2
trap 'rm -rf -- "$SCR"' EXIT
trap 'exit 2' INT TERM
export TMPDIR="$SCR"
mkdir -p "$SCR/gotmp"; export GOTMPDIR="$SCR/gotmp"
cp "$VERIF/harness/go.mod" "$SCR/go.mod"; cp "$VERIF/harness/go.sum" "$SCR/go.sum"
build() { # flags... ; output $SCR/lngcheck
  (cd "$VERIF/harness" && go build -modfile="$SCR/go.mod" "$@" . ) 2>"$SCR/build.log" || { echo "build failed:" >&2; tail -n 40 "$SCR/build.log" >&2; exit 2; }
}
export LNG_VERIF="$VERIF"
case "${1:-}" in
  build) build -o "$2"; exit 0;;
  buildrace) build -race -o "$2"; exit 0;;
  setup) build -o "$SCR/lngcheck"; "$SCR/lngcheck" selftest; exit $?;;
  replay)
    build -o "$SCR/lngcheck"; "$SCR/lngcheck" replay "$2"; exit $?;;
  P31)
    build -race -o "$SCR/lngcheck";;
  *)
    build -o "$SCR/lngcheck";;
esac
"$SCR/lngcheck" run "$1" "${2:-quick}"
exit $?
