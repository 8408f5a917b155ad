#!/bin/bash
# Builds the checker into bin/ when it is missing or older than its sources.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/bin"
exec 9>"$here/bin/.lock"
flock 9
if [ -x "$here/bin/gosym" ] && [ -z "$(find "$here/engine" -newer "$here/bin/gosym" -type f -print -quit)" ]; then
	exit 0
fi
cd "$here/engine" && GOFLAGS=-mod=vendor go build -o "$here/bin/gosym" .
