#!/bin/bash
# Runs demo.txt, a Go main program, against the v5 module of the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOFLAGS=
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -r -f -- "$tmp"' EXIT
cp "$here/demo.txt" "$tmp/main.go" || exit 3
printf '{"Replace": {"%s": "%s"}}' "$repo/v5/cmd/verifdemo/main.go" "$tmp/main.go" > "$tmp/overlay.json"
cd "$repo/v5" || exit 3
cp go.mod "$tmp/demo.mod" && cp "$here/sum.txt" "$tmp/demo.sum" || exit 3
go build  -modfile="$tmp/demo.mod" -overlay "$tmp/overlay.json" -o "$tmp/demo" ./cmd/verifdemo || exit 3
timeout 120 "$tmp/demo" "$repo/v5/TSL.g4"
