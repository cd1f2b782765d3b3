#!/bin/bash
# Checks that the tools are there, that every specification parses, and warms
# Go's build cache.  Checks do not depend on anything this leaves behind.
cd "$(dirname "$0")/.." || exit 1
set -e
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
w=$(mktemp -d /tmp/zv-setup-XXXXXX)
trap 'rm -rf "$w"' EXIT
for f in spec/*.tla; do
  (cd spec && java -cp "$CP" tla2sany.SANY "$(basename "$f")") >"$w/sany.log" 2>&1 || { cat "$w/sany.log"; exit 1; }
done
cp -r harness stubs "$w/"
cd "$w/harness"
GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local go build -o "$w/bin/" ./cmd/... || echo "note: a driver does not build from this tree"
