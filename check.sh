#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's working tree.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tier=${2:-${VERIF_TIER:-quick}}
"$here/build.sh" || exit 2
cd "$here" || exit 2
exec "$here/bin/gosym" check -property "$1" -tier "$tier" -verif "$here"
