#!/bin/bash
# Checks that the analyzer builds offline.
cd "$(dirname "$0")" || exit 2
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
bin=$(mktemp -d /tmp/nanomux-an.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
cd analyzer && go vet . && go build -o "$bin/an" .
