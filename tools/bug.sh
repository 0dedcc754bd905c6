#!/bin/bash
# bug.sh ID [check [PROPS]]: confirm a seeded change in a scratch copy of /repo
set -u
id=$1; d=/verif/seeded/$id; w=/tmp/bug_$id; x=/tmp/demo_$id
rm -rf "${w:?}" "${x:?}"; cp -a /repo "$w"; cp -r "$d" "$x"; rm -f "$x"/*.diff "$x"/meta.json
cd "$w" && git checkout -q -- .
run() { timeout 300 bash "$x/demo.sh" >/tmp/bug_$id.out 2>&1; echo $?; }
c=$(run); git apply "$d/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$w" "$x"; exit 1; }
p=$(run)
sed "s#^REPO = .*#REPO = \"$w\"#" /opt/vp/acacia_tests.py > /tmp/bug_$id.py
t=$(PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore python3 /tmp/bug_$id.py /tmp/bug_$id.lines >/dev/null; python3 -c "
import json
st=json.load(open('/opt/vp/BASELINE.json'))['stable']
ok={l.split(' ',1)[1].strip() for l in open('/tmp/bug_$id.lines') if l.startswith('PASS')}
print([x for x in st if x not in ok])")
echo "$id: clean=$c patched=$p broken_tests=$t | $(tail -1 /tmp/bug_$id.out)"
rm -f /tmp/bug_$id.out /tmp/bug_$id.py /tmp/bug_$id.lines
if [ "${2:-}" = check ]; then
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  for q in ${3:-$prop}; do (cd /verif && VP_REPO=$w python3 run.py check $q | tail -4 | cut -c1-250); done
fi
rm -rf "$w" "$x"
