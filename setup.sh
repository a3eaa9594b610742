#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PATH="$PATH:/opt/veriftools/go1.27.3/bin:/usr/local/go/bin"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
mkdir -p "$here/bin"
cd "$here/checker" && go build -o "$here/bin/mondisverif" .
