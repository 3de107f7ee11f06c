#!/bin/bash
# usage: run.sh <property> [quick|thorough]   or   run.sh <property> --replay <file>
# Builds the explorer against the current working tree of the repository and
# runs one check. Exit 0: held on everything explored; 1: VIOLATION.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="${VERIF_REPO:-/repo}"
id="$1"; shift
tier="${1:-${VERIF_TIER:-quick}}"
export PATH="/usr/local/go/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
tmp="$(mktemp -d /tmp/verif-$id-XXXXXX)" || exit 2
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
sed "s#=> /repo#=> $repo#" "$here/mc/go.mod" > "$tmp/go.mod"
cmd=mc
case "$id" in
C14) cmd=mcbuild ;;
C22|C30) cmd=mcsched ;;
C27) cmd=mcring ;;
esac
cd "$here/mc" || exit 2
case "$cmd" in
mcbuild|mcsched)
	# these instrument the source at build time: the driver builds the explorer itself
	if ! go build -modfile="$tmp/go.mod" -o "$tmp/instrument" ./cmd/instrument 2> "$tmp/build.log"; then
		cat "$tmp/build.log" >&2; exit 2
	fi
	"$tmp/instrument" -mode "$cmd" -repo "$repo" -out "$tmp" || exit 2
	overlay="-overlay=$tmp/overlay.json"
	if [ "$cmd" = mcsched ]; then
		overlay="-race $overlay"
		export CGO_ENABLED=1 GORACE="halt_on_error=1 exitcode=66 history_size=2"
	fi
	;;
*) overlay= ;;
esac
if ! go build -modfile="$tmp/go.mod" $overlay -o "$tmp/$cmd" "./cmd/$cmd" 2> "$tmp/build.log"; then
	cat "$tmp/build.log" >&2
	exit 2
fi
cd "$here"
if [ "$tier" = "--replay" ]; then
	"$tmp/$cmd" -replay "$2"; exit $?
fi
"$tmp/$cmd" -check "$id" -tier "$tier" -out "${VERIF_OUT:-$here}" "${@:2}"
