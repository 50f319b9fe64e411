#!/bin/bash
# check.sh ID | setup | replay FILE [-v]
# Builds the simulator's tools and runs one check against /repo's working tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d /tmp/vsim-bin.XXXXXX)" || exit 2
trap 'rm -rf "$tmp"' EXIT
cd "$here/sim/vsim" || exit 2
env -u GOFLAGS GOWORK=off GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=mod go build -o "$tmp/vsim" . >&2 || exit 2
cd "$here" || exit 2
case "${1:-}" in
setup) VSIM_VERIF="$here" "$tmp/vsim" setup ;;
replay) shift; VSIM_VERIF="$here" "$tmp/vsim" replay "$@" ;;
C*) VSIM_VERIF="$here" "$tmp/vsim" check "$1" & pid=$!
	trap 'kill $pid 2>/dev/null; wait $pid; rm -rf "$tmp"; exit 2' TERM INT
	wait $pid ;;
*) echo "usage: check.sh ID | setup | replay FILE [-v]" >&2; exit 2 ;;
esac
