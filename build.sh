#!/bin/bash
# builds the analyzer into bin/ when its sources are newer than the binary
here=$(cd "$(dirname "$0")" && pwd)
. "$here/analyzer/env.sh"
b=$here/bin/analyzer
if [ -x "$b" ] && [ -z "$(find "$here/analyzer" -newer "$b" -type f | head -1)" ]; then exit 0; fi
mkdir -p "$here/bin"
cd "$here/analyzer" && go build -o "$b.$$" . && mv "$b.$$" "$b"
