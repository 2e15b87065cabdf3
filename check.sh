#!/bin/bash
# check.sh PROPERTY [simctl check flags]: builds the orchestrator and runs one check.
dir=$(cd "$(dirname "$0")" && pwd)
[ -d /opt/veriftools/go1.26.10/bin ] && export PATH=/opt/veriftools/go1.26.10/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off HOME=${HOME:-/root}
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$dir/sim" && go build -o "$tmp/simctl" ./cmd/simctl) || exit 2
case "$1" in
replay) shift; "$tmp/simctl" replay -verif "$dir" "$@" ;;
*) p=$1; shift; "$tmp/simctl" check -prop "$p" -verif "$dir" "$@" ;;
esac
