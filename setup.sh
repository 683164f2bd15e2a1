#!/bin/bash
# builds the verifier once, offline, to show that it builds (checks rebuild it themselves)
cd "$(dirname "$0")/govc" || exit 1
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=
d="$(mktemp -d /tmp/govc.XXXXXX)" && go build -mod=vendor -o "$d/govc" . ; r=$?
rm -rf "$d"; exit $r
