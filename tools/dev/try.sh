#!/bin/bash
# try.sh ID [PROPERTY]: runs the property's check against /repo with the planted bug, then undoes it
d=/verif/seeded/$1; p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
[ -z "$(git -C /repo status --short)" ] || { echo "repo not clean"; exit 3; }
git -C /repo apply $d/patch.diff || exit 3
cd /verif; python3 check.py --property $p --tier quick | tail -6; echo "TRY $1 $p rc=${PIPESTATUS[0]}"
git -C /repo checkout -q -- .
