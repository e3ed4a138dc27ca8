#!/bin/bash
# trychecks.sh ID [PROPERTY]: apply a planted change to /repo, run the check of its property, undo the change
P=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$1/patch.diff || exit 1
cd /verif; s=$(date +%s); python3 check.py $P > /tmp/w/try.$1.$P.log 2>&1; r=$?; git -C /repo checkout -- .
echo "$1 $P exit $r $(( $(date +%s) - s ))s $(grep -E '^VIOLATION|^violated' /tmp/w/try.$1.$P.log | tr '\n' ' ' | cut -c1-200)"
