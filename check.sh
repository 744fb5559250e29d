#!/bin/bash
# check.sh <property> [quick|thorough]: decides one property on /repo's current working tree
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || exit 2
exec "$here/sim/target/release/psim" check "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}" --verif "$here"
