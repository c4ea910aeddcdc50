#!/bin/bash
# usage: check.sh [-t quick|thorough] PROPERTY
# Builds the symbolic executor and decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
V=$(pwd)
tier=${VERIF_TIER:-quick}
if [ "$1" = -t ]; then tier=$2; shift 2; fi
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
mkdir -p bin || exit 2
(cd engine && go build -o ../bin/vengine .) || exit 2
exec bin/vengine check -verif "$V" -repo /repo -tier "$tier" "$@"
