#!/bin/bash
# check.sh <property> <quick|thorough>: builds the engine from /verif/engine and decides the
# property on /repo's current tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
prop=${1:?property}; tier=${2:-${VERIF_TIER:-quick}}
bin=$(mktemp -d /tmp/vpbin.XXXXXX) || exit 2
trap '/bin/rm -rf "$bin"' EXIT
(cd "$here/engine" && go build -o "$bin/vpengine" .) || { echo "engine does not build"; exit 2; }
"$bin/vpengine" -verif "$here" -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" "${@:3}"
