#!/bin/bash
# Builds the analyzer from the committed source, offline.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
mkdir -p "$here/bin"
cd "$here/analyzer" || exit 1
if [ -x "$here/bin/gcheck" ] && [ -z "$(find . -newer "$here/bin/gcheck" -name '*.go')" ]; then exit 0; fi
go build -o "$here/bin/gcheck.$$" . && mv "$here/bin/gcheck.$$" "$here/bin/gcheck"
