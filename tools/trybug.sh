#!/bin/bash
# trybug.sh [-t] ID: demonstration without and with the planted change, and the check of its
# property; -t also runs the repository's tests with the change
t=; [ "$1" = -t ] && { t=1; shift; }
id=$1; d=/verif/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
(cd /repo && bash $d/demo.sh >/tmp/trybug.out 2>&1); a=$?
git -C /repo apply $d/patch.diff || exit 2
(cd /repo && bash $d/demo.sh >/tmp/trybug.out2 2>&1); b=$?
(cd /verif && VERIF_SEED=1 ./run.sh $p > /tmp/trybug.chk 2>&1); c=$?
if [ -n "$t" ]; then
  bash /opt/vp/build.sh >/tmp/trybug.build 2>&1 && bash /opt/vp/test.sh /tmp/trybug.tests >/dev/null 2>&1
  python3 /verif/tools/cmp_tests.py /tmp/trybug.tests | tail -3
fi
git -C /repo checkout -q -- .
echo "$id $p: demo clean $a, demo changed $b, check $c $(grep -m1 VIOLATION /tmp/trybug.chk)"
[ $a = 0 ] || tail -5 /tmp/trybug.out; [ $b = 1 ] || tail -5 /tmp/trybug.out2
grep -m1 '^case' /tmp/trybug.chk | cut -c1-250
