#!/bin/bash
# check.sh ID [quick|thorough]: builds the analyzer and decides one property
# of the source in /repo (REPO names another tree, for development).
cd "$(dirname "$0")" || exit 2
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GODEBUG=
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}"
bin=$(mktemp -d /tmp/nanomux-an.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
(cd analyzer && go build -o "$bin/an" .) || { echo "the analyzer doesn't build"; exit 2; }
"$bin/an" -repo "${REPO:-/repo}" -verif "$PWD" "$1"
