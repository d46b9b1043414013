#!/bin/bash
# seedcheck.sh ID [--notest]: confirm a planted bug in a scratch copy bound over /repo in a private mount namespace
id=$1; S=$(cd "$(dirname "$0")/.." && pwd)/seeded/$id; W=/tmp/mut
[ -d $W ] || cp -a /repo $W
git -C $W checkout -q -- . ; git -C $W pull -q /repo HEAD 2>/dev/null || { git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD; }
export id S W NT=$2
rm -rf /tmp/demo-$id; cp -r $S /tmp/demo-$id
( cd /repo; timeout 300 bash /tmp/demo-$id/demo.sh > /tmp/sd0-$id.log 2>&1; echo "demo on base: $?"; tail -3 /tmp/sd0-$id.log )
exec unshare -m -p -f --kill-child --mount-proc bash -c '
mount --bind $W /repo; cd /repo
git apply $S/patch.diff || { echo "NO APPLY"; exit 2; }
bash /opt/vp/build.sh > /tmp/sb-$id.log 2>&1 || { tail -20 /tmp/sb-$id.log; echo "BUILD FAILS"; git checkout -q -- .; exit 2; }
timeout 300 bash /tmp/demo-$id/demo.sh > /tmp/sd1-$id.log 2>&1; echo "demo patched: $?"; tail -3 /tmp/sd1-$id.log
if [ "$NT" != --notest ]; then
bash /opt/vp/test.sh /tmp/st-$id.json > /tmp/stl-$id.log 2>&1; python3 /tmp/cmpt.py /tmp/st-$id.json; fi
git checkout -q -- .
rm -rf /tmp/demo-$id
'
