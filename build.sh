#!/bin/bash
# Builds the verifier (govc) into a git-ignored folder.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false" GOSUMDB=off GONOSUMDB='*' GONOSUMCHECK=1
cd "$here/govc"
mkdir -p "$here/bin"
go build -o "$here/bin/govc" .
