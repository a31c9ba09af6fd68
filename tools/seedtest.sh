#!/bin/bash
# tools/seedtest.sh ID: checks that a planted bug counts, and whether its check catches it
cd /verif; d=/verif/seeded/$1; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 9; }
t=$(mktemp -d); cp -r $d $t/s; rm -f $t/s/*.diff $t/s/meta.json
(cd /repo && bash $t/s/demo.sh >$t/o 2>&1); r0=$?; [ $r0 = 0 ] || tail -3 $t/o
git -C /repo apply $d/patch.diff || { echo "does not apply"; rm -rf "$t"; exit 9; }
trap 'git -C /repo checkout -- .; rm -rf "$t"' EXIT
bash /opt/vp/build.sh >$t/b 2>&1; rb=$?
bash /opt/vp/test.sh $t/r.json >/dev/null 2>&1; rt=$(python3 -c "
import json;r=json.load(open('$t/r.json'));b=json.load(open('/opt/vp/BASELINE.json'));print(len(r['passed']),len(r['failed']))")
(cd /repo && bash $t/s/demo.sh >$t/o 2>&1); r1=$?
echo "$1: demo-clean=$r0 build=$rb tests=$rt demo-bug=$r1"
[ -n "$2" ] && exit
python3 check.py $prop > $t/c 2>&1; rc=$?
echo "$1: $prop exit=$rc"; grep -v "^{" $t/c | cut -c1-300 | tail -6
