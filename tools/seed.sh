#!/bin/bash
# seed.sh ID... : confirms planted bugs in a scratch copy of /repo (in
# /tmp/seedwork): builds, stable tests pass, demo passes without and fails with.
verif=$(cd "$(dirname "$0")/.." && pwd)
w=/tmp/seedwork/repo
mkdir -p /tmp/seedwork
for id in "$@"; do
  d=$verif/seeded/$id
  # the scratch copy stands in for /repo by a mount of its own
  unshare -Urm bash -c '
    d=$1; w=$2
    [ -d $w ] || cp -a /repo $w
    git -C $w checkout -q -- . ; git -C $w fetch -q /repo HEAD && git -C $w checkout -q --detach FETCH_HEAD
    mount --bind $w /repo || exit 9
    cd /repo
    demo() { rm -rf /tmp/seedwork/demo; cp -a $d /tmp/seedwork/demo; rm -f /tmp/seedwork/demo/*.diff /tmp/seedwork/demo/meta.json; (cd /repo && timeout 300 bash /tmp/seedwork/demo/demo.sh); }
    bash /opt/vp/build.sh >/tmp/seedwork/log 2>&1 || { echo "base build failed"; tail -5 /tmp/seedwork/log; exit 1; }
    echo "-- unchanged"; demo; a=$?
    git apply --check $d/patch.diff || exit 1
    git apply $d/patch.diff
    bash /opt/vp/build.sh >/tmp/seedwork/log 2>&1 || { echo "BUILD FAILED"; tail -25 /tmp/seedwork/log; git checkout -q -- .; exit 1; }
    bash /opt/vp/test.sh /tmp/seedwork/out.json >/tmp/seedwork/log 2>&1
    python3 - <<P
import json
o=json.load(open("/tmp/seedwork/out.json")); b=json.load(open("/opt/vp/BASELINE.json"))["stable"]
p=set(o.get("passed",[])); m=[t for t in b if t not in p]
print("-- stable tests:", "all pass" if not m else "MISSING %s"%m)
P
    echo "-- patched"; demo; b=$?
    git checkout -q -- .
    echo "== $d unchanged=$a patched=$b $([ $a = 0 -a $b != 0 ] && echo GOOD || echo BAD)"
  ' x "$d" "$w"
done
