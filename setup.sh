#!/bin/bash
# Builds the analyser from the committed sources (offline, vendored).
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=
mkdir -p "$here/bin"
cd "$here/checker" && go build -mod=vendor -o "$here/bin/psv.new" . && mv -f "$here/bin/psv.new" "$here/bin/psv"
