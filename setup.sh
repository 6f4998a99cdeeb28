#!/bin/bash
# Warms the build cache (every check builds what it needs anyway).
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
out="$(mktemp -d /tmp/hmsetup.XXXXXX)"
trap 'rm -rf "$out"' EXIT
cd "$here/harness" && go build -buildvcs=false -mod=readonly -o "$out/a" ./cmd && go build -mod=readonly -race -o "$out/b" ./cmd
