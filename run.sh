#!/bin/bash
# run.sh ID quick|thorough [--replay FILE]: builds the harness against the
# working tree of /repo, and runs the check of one property.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
export HOME=${HOME:-/root} GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
export PATH=/usr/local/bin:/usr/local/go/bin:/usr/bin:/bin TZ=UTC
unset GOROOT
id=$1
tier=${2:-quick}
race=
bin=build/vh
if [ "$id" = C31 ]; then
	export CGO_ENABLED=1
	race=-race
	export GORACE='halt_on_error=1 exitcode=66'
	bin=build/vh-race
fi
mkdir -p build
if ! (cd harness && go build $race -o "../$bin" .); then
	echo "the harness does not build against /repo" >&2
	exit 2
fi
[ "$id" = build ] && exit 0
if [ "$3" = --replay ]; then
	exec "$bin" replay "$4"
fi
exec "$bin" check "$id" "$tier"
