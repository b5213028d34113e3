#!/bin/bash
# seedtest.sh ID [notest] : confirms the planted change seeded/ID in a scratch copy of /repo bound over /repo in a
# user namespace: demo passes unpatched, patch applies, builds, passes the stable tests, demo fails; then runs its check.
set -u
ID=$1; V=/verif; S=$V/seeded/$ID; W=/tmp/st.$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf "$W"; mkdir -p "$W/r" "$W/d"; (cd /repo && tar cf - --exclude=_build .) | tar xf - -C "$W/r"
mkdir -p $W/r/_build; [ -d /tmp/st.ccache ] || cp -a /repo/_build/ccache /tmp/st.ccache 2>/dev/null; cp -a /tmp/st.ccache $W/r/_build/ccache
cp -a $S/. $W/d/; rm -f $W/d/patch.diff $W/d/meta.json
ns() { unshare -Urm bash -c "mount --bind $W/r /repo; cd /repo; $1"; }
ns "bash /opt/vp/build.sh" >$W/b0.log 2>&1 || { echo "$ID: base build failed"; exit 1; }
ns "timeout 300 bash $W/d/demo.sh" >$W/demo0.log 2>&1; d0=$?
(cd $W/r && git apply $S/patch.diff) || { echo "$ID: patch does not apply"; exit 1; }
ns "bash /opt/vp/build.sh" >$W/b1.log 2>&1 || { echo "$ID: patched build failed"; tail -5 $W/b1.log; exit 1; }
ns "timeout 300 bash $W/d/demo.sh" >$W/demo1.log 2>&1; d1=$?
t=skipped
if [ "${2:-}" != notest ]; then
 ns "bash /opt/vp/test.sh $W/out.json" >$W/t.log 2>&1
 t=$(python3 - <<X
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('$W/out.json'))['passed']); print("missing",len(b-p),sorted(b-p)[:5])
X
)
fi
SGRID_REPO=$W/r VERIF_TIER=quick VERIF_SEED=1 python3 $V/checks/$P.py >$W/check.log 2>&1; c=$?
echo "$ID: demo base=$d0 patched=$d1 tests=$t check $P exit=$c $(grep -m1 VIOLATION $W/check.log)"
[ $d0 = 0 ] && [ $d1 != 0 ] || { tail -n 5 $W/demo0.log $W/demo1.log; }
[ "${KEEP:-}" ] || rm -rf $W
