#!/bin/bash
# builds /verif/bin/solint from the committed sources, offline
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/solint" || exit 2
sum=$(find . -path ./vendor -prune -o -name '*.go' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
if [ -x "$here/bin/solint" ] && [ "$(cat "$here/bin/solint.sum" 2>/dev/null)" = "$sum" ]; then exit 0; fi
mkdir -p "$here/bin"
GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=vendor CGO_ENABLED=0 go build -o "$here/bin/solint.tmp.$$" . || exit 2
mv "$here/bin/solint.tmp.$$" "$here/bin/solint" && echo "$sum" > "$here/bin/solint.sum"
