#!/bin/bash
# tryseed.sh ID [nobuild]: confirm a planted bug in a scratch copy and run its check against it
ID=$1; V=/verif; S=/tmp/seedrepo; D=$V/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
mkdir -p $S
(cd /repo && tar cf - --exclude=./_build --exclude=./.git .) | (cd $S && tar xf - )
cp -r $D /tmp/seeddemo.$ID; 
(cd $S && bash /tmp/seeddemo.$ID/demo.sh >/tmp/seed.$ID.clean 2>&1); C=$?
patch -d $S -p1 -s < $D/patch.diff || { echo "$ID: patch failed"; exit 1; }
(cd $S && bash /tmp/seeddemo.$ID/demo.sh >/tmp/seed.$ID.bad 2>&1); B=$?
echo "$ID: demo clean=$C patched=$B"; tail -2 /tmp/seed.$ID.bad
[ $C != 0 ] && tail -5 /tmp/seed.$ID.clean
if [ "$2" != nobuild ]; then sed "s#/repo#$S#g" /opt/vp/build.sh > /tmp/seedbuild.sh; bash /tmp/seedbuild.sh >/tmp/seed.$ID.build 2>&1 && echo "$ID: builds" || { echo "$ID: BUILD FAILS"; tail -5 /tmp/seed.$ID.build; }
 sed "s#/repo#$S#g; s#/opt/vp/build.sh#/tmp/seedbuild.sh#; s#/opt/vp/results.py#/tmp/results.py#" /opt/vp/test.sh > /tmp/seedtest.sh; sed "s#/repo#$S#g" /opt/vp/results.py > /tmp/results.py; bash /tmp/seedtest.sh /tmp/seed.$ID.tests >/tmp/seed.$ID.testlog 2>&1; python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed.$ID.tests'))
st=set(b["stable"]); print("$ID: stable tests not passing:", len(st-set(t["passed"])))
P
fi
KSE_REPO=$S timeout 900 python3 $V/run.py $P > /tmp/seed.$ID.check 2>&1; echo "$ID: check $P exit $?"; grep -m2 VIOLATION /tmp/seed.$ID.check
patch -d $S -p1 -s -R < $D/patch.diff; rm -rf /tmp/seeddemo.$ID
