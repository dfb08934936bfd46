#!/bin/bash
# seedtest.sh ID [nocheck]: confirms a planted bug in a scratch copy of /repo: applies, builds, passes the stable
# tests, demo fails with it and passes without it; then runs the property's check against it.
ID=$1; S=/verif/seeded/$ID; W=$(mktemp -d /tmp/seedtest.XXXXXX)
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
build() { cmake -S $1 -B $1/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DSQLITE_LIB=/usr/lib/x86_64-linux-gnu/libsqlite3.so >/dev/null 2>&1 && cmake --build $1/_build -j8 >$W/log 2>&1 || { echo "$ID BUILD FAILED"; grep -A5 error: $W/log | head; exit 1; }; }
export CC=gcc
mkdir $W/a $W/b $W/d; cp -r $S/. $W/d; rm -f $W/d/*.diff $W/d/meta.json
for x in a b; do git -C /repo archive HEAD | tar x -C $W/$x; (cd $W/$x; git init -q . ; git add -A; git -c user.name=x -c user.email=x commit -qm x); done
git -C $W/b apply $S/patch.diff || { echo "$ID DOES NOT APPLY"; exit 1; }
build $W/a; build $W/b
(cd $W/a; timeout 300 bash $W/d/demo.sh >$W/demo.a 2>&1); A=$?
(cd $W/b; timeout 300 bash $W/d/demo.sh >$W/demo.b 2>&1); B=$?
sed "s#^REPO = .*#REPO = '$W/b'#" /opt/vp/run_tests.py > $W/rt.py
(cd $W/b; python3 $W/rt.py $W/o.json >/dev/null 2>&1)
M=$(python3 - <<X
import json
d=json.load(open('$W/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
m=[t for t in b['stable'] if t not in set(d['passed'])]
print(len(m), m[:3])
X
)
echo "$ID ($P): demo unchanged=$A patched=$B; stable tests missing: $M"
[ $A = 0 ] || tail -3 $W/demo.a
tail -3 $W/demo.b
if [ -z "$2" ]; then (cd /verif; DICTU_REPO=$W/b ./check $P 2>&1 | cut -c1-230 | tail -2); fi
rm -rf "$W"
