#!/bin/bash
# Builds the symbolic executor from its committed, vendored sources (offline).
set -eu
cd "$(dirname "$0")"
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=vendor
for d in /opt/veriftools/go1.27.3/bin /opt/veriftools/go1.26.10/bin; do [ -x $d/go ] && { export PATH=$d:$PATH; break; }; done
mkdir -p bin
(cd gosym && go build -o ../bin/gosym.$$ . && mv ../bin/gosym.$$ ../bin/gosym)
