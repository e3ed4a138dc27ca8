#!/bin/bash
# seedcheck.sh ID: confirm a planted change in a scratch copy of /repo: it applies, builds, passes the stable tests, and its demo passes without and fails with it
S=/verif/seeded/$1; D=/tmp/seedwork/$1; mkdir -p /tmp/seedwork; rm -rf "/tmp/seedwork/$1"; mkdir -p $D
git -C /repo archive HEAD | tar x -C $D; cp -a /repo/.git $D/.git 2>/dev/null
sed "s#/repo#$D#g" /opt/vp/build.sh > $D.build.sh; sed "s#/repo#$D#g; s#/opt/vp/build.sh#$D.build.sh#" /opt/vp/test.sh > $D.test.sh
rm -rf "/tmp/seedwork/$1.demo"; cp -r $S $D.demo
run() { sed "s#/repo#$D#g" $S/demo.sh > $D.demo/demo.sh; (cd $D; timeout 300 bash $D.demo/demo.sh > $D.demo.out 2>&1); }
bash $D.build.sh > $D.log 2>&1 || { echo "$1 BASE BUILD FAILED"; exit 1; }
run; a=$?
(cd $D; git init -q . 2>/dev/null; git apply $S/patch.diff) || { echo "$1 PATCH DOES NOT APPLY"; exit 1; }
bash $D.build.sh >> $D.log 2>&1 || { echo "$1 BUILD FAILED"; exit 1; }
run; b=$?
bash $D.test.sh $D.json > $D.tlog 2>&1
python3 - $1 $D $a $b <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json')); base=base.get('passed',base.get('stable',base)) if isinstance(base,dict) else base
r=json.load(open(sys.argv[2]+'.json'))['passed']; miss=[x for x in base if x not in r]
print(sys.argv[1],'demo base',sys.argv[3],'demo patched',sys.argv[4],'tests missing',miss[:5], 'OK' if sys.argv[3]=='0' and sys.argv[4]!='0' and not miss else 'BAD')
P
rm -rf "/tmp/seedwork/$1" "/tmp/seedwork/$1.demo" "$D.build.sh" "$D.test.sh" "$D.json"
