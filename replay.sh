#!/bin/bash
# replay.sh <file>: runs a recorded violation again on /repo's current working tree
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || exit 2
exec "$here/sim/target/release/psim" replay "$1"
