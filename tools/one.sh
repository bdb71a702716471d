#!/bin/bash
# one.sh <id> [checks...]: builds, tests, demos (both trees) and runs the given checks on the patched tree
id=$1; shift
W=/tmp/wt/$id; rm -rf $W; mkdir -p $W
cp -a /repo $W/repo
mkdir $W/verif; (cd /verif; tar c --exclude=./build --exclude=./seeded --exclude=./evidence .) | tar x -C $W/verif
cp -a /verif/seeded/$id $W/demo
cat > $W/run.sh <<EOS
mount --bind $W/repo /repo; mount --bind $W/verif /verif
cd /repo
if [ -z "\$SKIPTEST" ]; then
echo "demo clean: \$(bash $W/demo/demo.sh >$W/demo0.log 2>&1; echo \$?)"
git apply $W/demo/patch.diff || { echo PATCH FAILS; exit; }
bash /opt/vp/build.sh >$W/build.log 2>&1 || { echo BUILD FAILS; tail -5 $W/build.log; exit; }
bash /opt/vp/test.sh $W/t.json > $W/test.log 2>&1
python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('$W/t.json'))['passed'])
print('tests:', 'pass' if b<=p else 'FAIL '+str(sorted(b-p)))
P
echo "demo patched: \$(bash $W/demo/demo.sh >$W/demo1.log 2>&1; echo \$?)"
else
git apply $W/demo/patch.diff || { echo PATCH FAILS; exit; }
fi
for c in $@; do /usr/bin/time -f %es -o $W/tm python3 /verif/check.py \$c > $W/\$c.log 2>&1; echo "\$c exit=\$? \$(cat $W/tm|tail -1) \$(grep -c VIOLATION.property=\$c $W/\$c.log) \$(head -c 200 $W/\$c.log | tr '\n' ' ')"; done
EOS
unshare -Urm bash $W/run.sh 2>&1 | sed "s/^/[$id] /"
[ -z "$KEEP" ] && rm -rf $W/repo $W/verif
