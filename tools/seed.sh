#!/bin/bash
# seed.sh ID [notest]: try planted bug ID on /repo: build, stable tests, demo, the property's check; then undo.
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
clean() { git -C /repo checkout -q -- .; }
trap clean EXIT
if [ -z "$NOBASE" ]; then bash /opt/vp/build.sh >/tmp/seed_b.log 2>&1 || { echo base build failed; exit 2; }; (bash $d/demo.sh >/tmp/seed_demo0.log 2>&1); echo "$id demo(base)=$?"; fi
git apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/seed_b.log 2>&1 || { echo "$id BUILD FAILED"; tail -5 /tmp/seed_b.log; exit 1; }
(bash $d/demo.sh >/tmp/seed_demo1.log 2>&1); echo "$id demo(patched)=$?"
if [ "$2" != notest ]; then bash /opt/vp/test.sh /tmp/seed_t.json >/tmp/seed_tt.log 2>&1; echo "$id tests: $(python3 /verif/tools/cmp.py /tmp/seed_t.json)"; fi
cd /verif; timeout 900 python3 vf.py check $prop >/tmp/seed_c.log 2>&1; rc=$?
echo "$id check $prop rc=$rc $(grep -m1 VIOLATION /tmp/seed_c.log) | $(head -1 /tmp/seed_c.log | cut -c1-160)"
