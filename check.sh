#!/bin/bash
# check.sh PROPERTY TIER : builds the checker and decides one property on /repo's current source.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PATH="$PATH:/opt/veriftools/go1.27.3/bin:/usr/local/go/bin"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
export HOME="${HOME:-/root}"
prop=$1 tier=${2:-quick}
mkdir -p "$here/bin"
bin="$here/bin/mondisverif"
if ! (cd "$here/checker" && go build -o "$bin.$$" . && mv "$bin.$$" "$bin"); then
  echo "cannot build the checker"; exit 2
fi
exec "$bin" -repo "${MONDIS_REPO:-/repo}" -verif "$here" -property "$prop" -tier "$tier"
