#!/bin/bash
# tryseed.sh ID [check]: build, tests, demo (with and without), and the property's check, on /repo itself; reverts.
id=$1; d=/verif/seeded/$id
cd /repo && [ -z "$(git status --porcelain)" ] || { echo dirty; exit 1; }
[ -n "$NODEMO" ] || { bash $d/demo.sh >/tmp/exp/demo.log 2>&1; echo "$id demo clean rc $?"; }
git apply $d/patch.diff || exit 1
if [ -z "$NODEMO" ]; then
sh /tmp/exp/t.sh
bash $d/demo.sh >/tmp/exp/demo.log 2>&1; echo "$id demo patched rc $?"; tail -2 /tmp/exp/demo.log
fi
p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
cd /verif && timeout 900 python3-vt check.py $p | cut -c1-700; echo "$id check rc ${PIPESTATUS[0]}"
git -C /repo checkout -- .
