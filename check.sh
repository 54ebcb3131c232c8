#!/bin/bash
# check.sh <property>: verifies the contracts of one property against /repo's current source.
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/build.sh" >/dev/null || { echo "the verifier does not build"; exit 2; }
. /opt/vp/env.sh
export GOSUMDB=off
exec "$here/bin/govc" check --property "$1" --repo /repo --verif "$here"
