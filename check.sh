#!/bin/bash
# usage: check.sh <property id>   decides one property on the source tree in /repo
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=${VERIF_DIR:-$here}
. "$here/analyzer/env.sh"
"$here/build.sh" || { echo "cannot build the analyzer" >&2; exit 2; }
exec "$here/bin/analyzer" check "$1"
