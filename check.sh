#!/bin/bash
# check.sh PROPERTY : decides one property for /repo's current working tree.
# VERIF_SEED and VERIF_TIER (quick or thorough) are taken from the environment.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
case $1 in
  P17) vs="std noglobal" ;; # both implementations of the single-instance guard
  P18) vs="capture" ;;
  *) vs="std" ;;
esac
mkdir -p evidence
rm -f "$here/evidence/$1.json"
parts=()
code=0
for v in $vs; do
  bash tools/build.sh $v || { echo "check.sh: the build failed" >&2; exit 2; }
  part="$here/evidence/.$1-$v.json"
  parts+=("$part")
  LISOSIM_ROOT="$here" LISOSIM_EVIDENCE="$part" "$here/target/$v/debug/lisosim" check "$1"
  c=$?
  if [ $c -gt $code ]; then code=$c; fi
  [ $c -gt 1 ] && break
done
python3 tools/merge_evidence.py "$here/evidence/$1.json" "${parts[@]}" || code=2
exit $code
