#!/bin/bash
# builds the simulator in the variants the checks use
cd "$(dirname "$0")/.." && for v in std capture noglobal; do bash tools/build.sh $v || exit 1; done
