#!/bin/bash
# Builds the checker from its sources and the vendored libraries.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p "$here/bin" "$here/evidence"
cd "$here/checker"
go build -o "$here/bin/verifcheck" .
