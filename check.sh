#!/bin/bash
# check.sh PROPERTY [quick|thorough]
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
"$HERE/build.sh" || exit 2
exec "$HERE/sim/target/v0/release/sim" check "$PROP" "$TIER" "$SEED" \
  "$HERE/sim/target/v0/release/sim" "$HERE/sim/target/v1/checked/sim" "$HERE/sim/target/v2/release/sim" "$HERE"
