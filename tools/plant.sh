#!/bin/bash
# plant.sh ID PROPERTY NEEDS BREAKS: records the change in the worktree /tmp/wt
# as the planted bug ID. The demonstration seeded/ID/demo_test.go exists already.
# Development aid: confirms build, demonstration with and without, and tests.
. /opt/vp/env.sh
d=/verif/seeded/$1
cd /tmp/wt || exit 2
git diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 2; }
cp /verif/tools/demo_kit.go.txt "$d/kit_test.go"; cp /verif/tools/demo.sh.txt "$d/demo.sh"; chmod +x "$d/demo.sh"
python3 - "$@" <<'P' > "$d/meta.json"
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
go build ./... || exit 1
(cd /repo && bash "$d/demo.sh" > /tmp/demo0.log 2>&1) || { echo "DEMO FAILS ON UNCHANGED"; tail -30 /tmp/demo0.log; exit 1; }
bash "$d/demo.sh" > /tmp/demo1.log 2>&1 && { echo "DEMO PASSES WITH PATCH"; exit 1; }
grep -m3 -E "demo_test.go|panic" /tmp/demo1.log
[ -n "$NOTEST" ] && exit 0
go test -vet=off -count=1 ./... 2>&1 | grep -E "^(FAIL|---)|\[FAIL\]" | head
echo "planted $1"
