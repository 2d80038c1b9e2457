#!/bin/bash
# Warms the build cache; every check builds what it needs itself.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
cd "$here/engine" && go build -o /dev/null . && cd ../harness && go build -mod=readonly ./... 
