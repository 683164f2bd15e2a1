#!/bin/bash
# usage: check.sh PROPERTY quick|thorough   (decides one property on /repo's current working tree)
cd "$(dirname "$0")" || exit 1
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
export GOFLAGS=
bin="$(mktemp -d /tmp/govc.XXXXXX)"
trap 'rm -rf "$bin"' EXIT
if ! (cd govc && go build -mod=vendor -o "$bin/govc" .); then
  mkdir -p evidence
  echo "verifier does not build" > "evidence/$1.replay.txt"
  echo "verifier does not build" >&2
  exit 3
fi
"$bin/govc" -prop "$1" -tier "${2:-quick}"
