#!/bin/bash
# run.sh <property> [driver flags]: decide one property (see DESIGN.md)
export VERIF_ROOT="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
[ -n "$HOME" ] || export HOME=/root
mkdir -p "$VERIF_ROOT/.build" || exit 2
B=$(mktemp -d "$VERIF_ROOT/.build/drv-XXXXXX") || exit 2
trap '[ -n "$B" ] && rm -rf "$B"' EXIT
(cd "$VERIF_ROOT/sim" && go build -o "$B/check" ./cmd/check) || { echo "check error: driver does not build" >&2; exit 2; }
P="$1"; shift
if [ "$P" = "--warm" ]; then "$B/check" -warm; exit $?; fi
"$B/check" -prop "$P" "$@"
exit $?
