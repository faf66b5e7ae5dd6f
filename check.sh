#!/bin/bash
# check.sh ID : rebuild the simulator against /repo's working tree and decide one property.
# Exit 0 held, 1 violated (with a VIOLATION line), 2 the check itself failed.
set -u
root=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$root
if [ "$1" = C17 ]; then
  . "$root/build.sh" evalsim || exit 2
  exec "$root/evalsim/target/release/evaldst" check "$1"
fi
. "$root/build.sh" sim || exit 2
exec "$root/sim/target/release/dst" check "$1"
