#!/bin/bash
# run.sh check ID: (re)builds the verifier and runs one check.
set -e
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GVC_VERIF="$PWD"
mkdir -p bin
(cd gvc && go build -o ../bin/gvc.$$ . && mv ../bin/gvc.$$ ../bin/gvc)
[ "$1" = setup ] && exit 0
exec ./bin/gvc "$@"
