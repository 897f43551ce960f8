#!/bin/bash
# seedtest.sh ID [-n]: confirm a planted bug in a scratch copy of /repo (tests, demo both ways); -n: no test suite
id=$1; d=/verif/seeded/$id; w=$(mktemp -d /tmp/seedw.XXXX)
trap 'rm -rf "$w"' EXIT
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
git -C /repo archive HEAD | tar x -C $w
cp -a $d $w.demo; trap 'rm -rf "$w" "$w.demo"' EXIT
cd $w
(timeout 300 env PYTHONPATH=$w bash $w.demo/demo.sh) >/tmp/s/$id.demo0 2>&1; r0=$?
git apply --unsafe-paths --directory=$w $d/patch.diff 2>/dev/null || patch -s -p1 < $d/patch.diff || { echo "$id patch fails"; exit 1; }
(timeout 300 env PYTHONPATH=$w bash $w.demo/demo.sh) >/tmp/s/$id.demo1 2>&1; r1=$?
echo "$id demo unchanged=$r0 patched=$r1"
if [ "$2" != "-n" ]; then
  /opt/venv/bin/python -m pytest -q --tb=line --show-capture=no -p no:cacheprovider -n 8 --dist worksteal --mpl --mpl-baseline-path=tests/imgs_baseline --timeout=300 --basetemp=$w/tmpb -o junit_family=xunit2 --junitxml=$w/j.xml >/tmp/s/$id.test 2>&1
  /usr/bin/python3 /opt/vp/results.py /tmp/s/$id.json junit:$w/j.xml >/dev/null 2>&1
  python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=set(json.load(open('/tmp/s/%s.json'%sys.argv[1]))['passed'])
m=[t for t in b if t not in o and 'test_cli' not in t]; print(sys.argv[1],'failing stable tests:',len(m),m[:5])
P
fi
