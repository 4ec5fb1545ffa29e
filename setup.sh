#!/bin/bash
# Warms the Go build cache by building every harness once.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
mkdir -p "$here/evidence" "$here/replays"
out=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 2
trap 'rm -rf "$out"' EXIT
cd "$here/harness" && go build -o "$out/" ./cmd/... github.com/oov/psd/psdexporter &&
  GOARCH=386 go build -o "$out/peer386" ./cmd/peer && GOOS=js GOARCH=wasm go build -o "$out/peer.wasm" ./cmd/peer &&
  CGO_ENABLED=1 go build -race -o "$out/" ./cmd/core ./cmd/blendp ./cmd/comp
