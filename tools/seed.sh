#!/bin/bash
# tools/seed.sh <id> [check...]: try a planted bug against /repo and undo it.
# Prints the test, demo and check results.  By default runs the check of its property.
id=$1; shift
d=/verif/seeded/$id
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; trap - EXIT; exit 2; }
if [ -z "$NODEMO" ]; then
  bash /opt/vp/build.sh >/tmp/b.log 2>&1
  (cd /repo && bash $d/demo.sh >/tmp/demo0.log 2>&1); echo "demo clean: $? (want 0)"
fi
git -C /repo apply $d/patch.diff || exit 2
if [ -z "$NODEMO" ]; then
  bash /tmp/t.sh
  (cd /repo && bash $d/demo.sh >/tmp/demo1.log 2>&1); echo "demo bug: $? (want not 0)"
fi
[ $# -gt 0 ] || set -- $(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for c in "$@"; do
  /verif/check $c >/tmp/chk.log 2>&1; echo "check $c: $?"; grep -A3 -m1 VIOLATION /tmp/chk.log | head -3
done
undo
[ -n "$NODEMO" ] || bash /opt/vp/build.sh >/tmp/b.log 2>&1
