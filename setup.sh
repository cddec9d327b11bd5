#!/bin/bash
# Builds the harness once, to fill the compiler's cache. Every check builds it again
# from /repo's current tree.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB='*'
mkdir -p .build evidence
(cd harness && go test -c -vet=off -o ../.build/setup.test ./seq) || exit 1
(cd harness && rm -rf ../.build/mc-setup && mkdir -p ../.build/mc-setup && go run ./mcgen -out ../.build/mc-setup /repo /repo/tcpnetwork &&
  go test -c -vet=off -overlay ../.build/mc-setup/overlay.json -o ../.build/setup.test ./conc) || echo 'setup: the instrumented sources do not build'
rm -f .build/setup.test
