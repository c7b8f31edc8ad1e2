#!/bin/bash
# check.sh ID [quick|thorough]: builds the simulator against /repo's working tree and checks one
# property. Exit 0: held on everything explored; 1 with a VIOLATION line: broken; other: error.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
"$here/build.sh" || exit 3
exec "$here/target/release/psbt-sim" run "$id" "$tier" "$seed" "$here"
