#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS : make seeded/ID from the change in /tmp/seed/repo and the demo in /tmp/seed/demo,
# after confirming it (builds, stable tests pass, demo passes without and fails with it)
set -e
V=/verif; S=/tmp/seed; id=$1
git -C $S/repo diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo "no change"; exit 1; }
(cd /repo && bash $S/demo/demo.sh > $S/demo.clean.log 2>&1) || { echo "demo fails on the unchanged tree"; tail -30 $S/demo.clean.log; exit 1; }
if (cd $S/repo && bash $S/demo/demo.sh > $S/demo.bug.log 2>&1); then echo "demo passes with the change"; exit 1; fi
grep -v "^ok\|^---" $S/demo.bug.log | tail -${SHOW:-8}
if [ -z "$NOTESTS" ]; then
 (. /opt/vp/env.sh; cd $S/repo && go build ./... && go vet ./signer ./cmd/... 2>&1 | head -5; go test ./signer/... ./cmd/... 2>&1 | tail -8 | tee $S/tests.log; ! grep -q FAIL $S/tests.log) || { echo "tests fail"; exit 1; }
fi
mkdir -p $V/seeded/$id
cp $S/patch.diff $S/demo/* $V/seeded/$id/
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
echo "seeded $id"
