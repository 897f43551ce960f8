#!/bin/bash
# seedcheck.sh ID [PROP..]: apply a planted bug to /repo, run its property's quick check, undo
id=$1; shift; d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
p=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 2
for q in $p; do (cd /verif; timeout 900 /opt/venv/bin/python check.py $q --tier quick > /tmp/s/$id.$q.out 2>&1; echo "$id $q exit=$? $(grep -m1 -A1 VIOLATION /tmp/s/$id.$q.out | cut -c1-220 | tr '\n' ' ')"); done
git -C /repo checkout -- .
