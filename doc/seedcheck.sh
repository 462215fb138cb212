#!/bin/bash
# seedcheck.sh ID [PROPERTY...]: in a scratch copy of /repo: demo passes without, fails with the patch; build and tests pass with it; which checks catch it.
id=$1; shift; s=/verif/seeded/$id; w=/tmp/seedrepo.$id
props="$*"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
rm -rf "$w"; cp -a /repo "$w" || exit 2
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
cd "$w" || exit 2
bash "$s/demo.sh" >/tmp/seeds/$id.clean 2>&1; a=$?
git apply "$s/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$w"; exit 1; }
go build ./... || { echo "$id: does not build"; rm -rf "$w"; exit 1; }
bash "$s/demo.sh" >/tmp/seeds/$id.bad 2>&1; b=$?
go test -vet=off -timeout 150s -count=1 $(go list -e ./... | grep -vxE 'github.com/solarisdb/solaris/(golibs/timeout|pkg/storage/postgres)') > /tmp/seeds/$id.tests 2>&1; t=$?
[ -n "$NOTESTS" ] && t=skipped
out=""
for p in $props; do
  /verif/bin/solint -property $p -repo "$w" -verif /verif -n > /tmp/seeds/$id.$p 2>&1; out="$out $p=$?"
done
echo "$id: demo clean=$a patched=$b tests=$t checks:$out"
[ $t = 0 ] || grep -E '^(---|FAIL)' /tmp/seeds/$id.tests | head -5
rm -rf "$w"
