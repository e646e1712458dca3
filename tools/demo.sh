#!/bin/bash
# Runs main.go (beside this file) inside the module found in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build} GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOFLAGS=-mod=readonly
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf -- "$T"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go"}}\n' "$R" "$D" > "$T/o.json"
go build -overlay "$T/o.json" -o "$T/demo" ./zzdemo || exit 8
cd "$T" && timeout 240 "$T/demo"
