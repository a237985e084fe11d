#!/bin/bash
# usage: check.sh PROPERTY quick|thorough | check.sh --replay FILE | check.sh --build
V=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOWORK=off CGO_ENABLED=1
export GOPATH=${GOPATH:-/root/go} GOFLAGS=-mod=mod
bin=$V/bin/govc
if [ ! -x "$bin" ] || [ -n "$(find "$V/govc" -newer "$bin" -name '*.go' | head -1)" ] || [ "$1" = --build ]; then
  mkdir -p "$V/bin"
  (cd "$V/govc" && go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || { echo "cannot build the verifier" >&2; exit 2; }
fi
case "$1" in
--build) exit 0 ;;
--replay) exec "$bin" replay -repo /repo -verif "$V" "$2" ;;
*) exec "$bin" check -repo /repo -verif "$V" -property "$1" -tier "${2:-${VERIF_TIER:-quick}}" ;;
esac
