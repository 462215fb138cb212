#!/bin/bash
# usage: check.sh PROPERTY   -- builds the analyser when needed and decides one property on /repo
here="$(cd "$(dirname "$0")" && pwd)"
"$here/build.sh" || { echo "the analyser does not build"; exit 2; }
exec "$here/bin/solint" -property "$1" -verif "$here" "${@:2}"
