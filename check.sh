#!/bin/bash
# check.sh <property>: builds the verifier from /verif/vcg and decides the
# property for /repo's current working tree. Environment: VERIF_SEED, VERIF_TIER.
id="$1"
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB=* GOFLAGS=-mod=mod
bin="$(mktemp -d /tmp/vcg-XXXXXX)" || exit 2
trap 'rm -rf -- "$bin"' EXIT
(cd "$here/vcg" && go build -o "$bin/vcg" .) || { echo "the verifier does not build"; exit 2; }
"$bin/vcg" -prop "$id" -repo "${REPO:-/repo}" -spec "$here/spec" -out "$here"
