#!/bin/bash
# Builds the orchestrator and warms the build cache; the checks build again what they need.
dir=$(cd "$(dirname "$0")" && pwd)
[ -d /opt/veriftools/go1.26.10/bin ] && export PATH=/opt/veriftools/go1.26.10/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off HOME=${HOME:-/root}
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cd "$dir/sim" && go build -o "$tmp/simctl" ./cmd/simctl || exit 2
mkdir "$tmp/w" && "$tmp/simctl" build -work "$tmp/w" -n 2 -engine fed
