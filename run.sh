#!/bin/bash
# run.sh build        builds the analyser from /verif/tool (offline, vendored)
# run.sh ID           decides property ID on /repo's current source
cd "$(dirname "$0")" || exit 2
here=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor
export GOCACHE="$here/.cache/go-build"
mkdir -p "$here/.cache"
bin="$here/.cache/necheck"
stale() {
	[ -x "$bin" ] || return 0
	[ -n "$(find tool -name '*.go' -newer "$bin" -print -quit)" ]
}
if stale; then
	tmp="$bin.$$"
	if ! (cd tool && go build -o "$tmp" .); then
		echo "the analyser does not build"
		exit 2
	fi
	mv -f "$tmp" "$bin"
fi
[ "$1" = build ] && exit 0
exec "$bin" check "$@"
