#!/bin/bash
# check.sh ID [--replay FILE]   decide one property (VERIF_SEED, VERIF_TIER)
# check.sh --setup              build everything once
cd "$(dirname "$0")" || exit 2
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:$PATH HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GO111MODULE=on
unset GOFLAGS
mkdir -p .build || exit 2
bin=.build/check.$$
trap 'rm -f "$PWD/'"$bin"'"' EXIT
(cd cmd/check && GOFLAGS=-mod=mod go build -o "../../$bin" .) || exit 2
"./$bin" "$@"
