#!/bin/bash
# Makes the v6 parser from its grammar in a scratch copy and runs demo.txt, a Go main program, against it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOFLAGS=
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -r -f -- "$tmp"' EXIT
mkdir -p "$tmp/v6/cmd/verifdemo" && cp -r "$repo/v6/pkg" "$repo/v6/go.mod" "$repo/v6/go.sum" "$tmp/v6/" || exit 3
bash "$tmp/v6/pkg/parser/build.sh" 2>/dev/null || exit 3
cp "$here/demo.txt" "$tmp/v6/cmd/verifdemo/main.go" || exit 3
cd "$tmp/v6" || exit 3
go build -o "$tmp/demo" ./cmd/verifdemo || exit 3
timeout 120 "$tmp/demo"
