#!/bin/bash
# check.sh PROPERTY [quick|thorough] [gosym flags...]: decides one property against /repo's current tree.
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
P=$1; T=${2:-quick}; shift; [ $# -gt 0 ] && shift
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=
export VERIF_TIER=$T
D=$(echo "$P" | tr A-Z a-z)
# The properties of the TypeScript implementation have their own symbolic executor.
if [ -d tssym/h/$D ]; then
  exec node tssym/main.mjs -prop "$P" -tier "$T" -repo /repo -verif "$V" "$@"
fi
if [ ! -x bin/gosym ] || [ -n "$(find gosym -newer bin/gosym -name '*.go' -print -quit)" ]; then
  ./setup.sh || exit 2
fi
exec bin/gosym -prop "$P" -tier "$T" -repo /repo -verif "$V" "$@"
