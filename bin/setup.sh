#!/bin/bash
# Nothing has to be installed: checks that the tools and the harness build.
set -e
export HOME=/root PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
D=$(mktemp -d)
cp -r "$(dirname "$0")/../harness" "$D/harness"
(cd "$D/harness" && go build -o "$D/vh" .)
rm -r "$D"
test -f /opt/veriftools/tla/tla2tools.jar
java -version >/dev/null 2>&1
echo setup ok
