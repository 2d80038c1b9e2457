#!/bin/bash
# replay.sh <replay file>: runs the counterexample against the real code of /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
t=$(mktemp -d /tmp/vpreplay.XXXXXX) || exit 2
trap '/bin/rm -rf "$t"' EXIT
pkgs=h
case $1 in *C25*) pkgs="h cli" ;; esac
{ echo "package main"; echo
  for p in $pkgs; do echo "import \"github.com/unidoc/unitype/vpharness/$p\""; done
  echo; echo "var registry = map[string]func(){"
  for p in $pkgs; do
    grep -hoE '^func [A-Z][A-Za-z0-9_]*\(\) \{' "$here"/harness/$p/*.go | sed -E "s/^func ([A-Za-z0-9_]+)\(\) \{/\t\"\1\": $p.\1,/"
  done
  echo "}"; } > "$t/registry.go"
echo "{\"Replace\":{\"$here/harness/cmd/replay/registry.go\":\"$t/registry.go\"}}" > "$t/overlay.json"
(cd "$here/harness" && GOFLAGS= go build -mod=readonly -overlay "$t/overlay.json" -o "$t/replay" ./cmd/replay) || exit 2
mkdir "$t/fs"
VP_TMP="$t/fs" VP_DATA="$here/harness" timeout 60 "$t/replay" "$1"
