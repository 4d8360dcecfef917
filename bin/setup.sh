#!/bin/bash
# Compiles the conformance harness once so that a broken toolchain shows early.
set -e
cd "$(dirname "$0")/.."
export PATH=/opt/veriftools/go1.25.14/bin:$PATH GOROOT=/opt/veriftools/go1.25.14 GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
d=$(mktemp -d)
cp -r harness "$d/h"
(cd "$d/h" && go build -o "$d/vh" ./cmd/vh)
rm -rf "$d"
java -version >/dev/null 2>&1
echo setup ok
