#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property of /repo's current source by static analysis.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
bin=$here/bin/psv
if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" -newer "$bin" \( -name '*.go' -o -name go.mod \) -print -quit)" ]; then
  bash "$here/setup.sh" >&2 || exit 2
fi
exec "$bin" -repo "${PSV_REPO:-/repo}" -verif "$here" -property "$prop" -tier "$tier"
