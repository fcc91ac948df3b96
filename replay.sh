#!/bin/bash
# replay.sh FILE: rebuilds from /repo's working tree and executes a recorded violation
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
"$HERE/build.sh" || exit 2
exec "$HERE/sim/target/v0/release/sim" replay "$1" \
  "$HERE/sim/target/v0/release/sim" "$HERE/sim/target/v1/checked/sim" "$HERE/sim/target/v2/release/sim"
