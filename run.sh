#!/bin/bash
# run.sh <PROPERTY> : build the harness against /repo's working tree and decide one property.
# VERIF_TIER (quick|thorough) selects the bounds; exit 0 held, 1 VIOLATION, 2 error.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
if ! "$here/build.sh" "$id" >"/tmp/orverif-build.$$" 2>&1; then
  tail -40 "/tmp/orverif-build.$$"; rm -f "/tmp/orverif-build.$$"
  echo "ERROR: the harness does not build"; exit 2
fi
rm -f "/tmp/orverif-build.$$"
cd "$here" || exit 2
export ORVERIF_ROOT="$here"
if [ "$id" = C05 ]; then
  exec "$here/target/par/release/orpar"
fi
exec "$here/target/release/orverif" "$id"
