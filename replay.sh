#!/bin/bash
# replay.sh FILE : replays a violation recorded in replays/ on /repo's current
# working tree: prints the run and its trace, exits 1 if it is violated again.
here=$(cd "$(dirname "$0")" && pwd)
f=$(realpath "$1")
cd "$here" || exit 2
v=$(sed -n 's/.*"build": "\([a-z]*\)".*/\1/p' "$f" | head -1)
bash tools/build.sh "${v:-std}" || exit 2
exec "$here/target/${v:-std}/debug/lisosim" replay "$f"
