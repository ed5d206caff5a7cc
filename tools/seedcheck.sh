#!/bin/bash
# seedcheck.sh ID [notests]: in a scratch copy of /repo: the demo passes on it and fails with the patch; stable tests
# pass with the patch; which check catches it
id=$1; d=/verif/seeded/$id
w=/tmp/sc/$id; rm -rf /tmp/sc/$id; mkdir -p /tmp/sc; git clone -q /repo $w || exit 2
cd $w || exit 2
. /opt/vp/env.sh
bash $d/demo.sh >/tmp/sc/$id.clean 2>&1 && echo "demo clean: ok" || { echo "demo clean: FAILS"; tail -20 /tmp/sc/$id.clean; }
git apply $d/patch.diff || exit 2
go build ./... || echo "BUILD FAILS"
bash $d/demo.sh >/tmp/sc/$id.demo 2>&1 && echo "demo patched: PASSES (bad)" || echo "demo patched: fails (good)"
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
mkdir -p /tmp/sc/$id.v; ln -sfn /verif/contracts /tmp/sc/$id.v/contracts; ln -sfn /verif/harness /tmp/sc/$id.v/harness; cp /verif/known-findings.txt /tmp/sc/$id.v/
[ -x /tmp/gvc ] || bash /tmp/b.sh
(timeout 900 bash -c ". /verif/env.sh; /tmp/gvc check -repo $w -verif /tmp/sc/$id.v -prop $prop" | tail -4)
if [ "$2" != notests ]; then sed "s,/repo,$w,g" /opt/vp/test.sh > /tmp/sc/$id.test.sh; sed "s,/repo,$w,g" /opt/vp/each.py > /tmp/sc/$id.each.py; sed -i "s,/opt/vp/each.py,/tmp/sc/$id.each.py," /tmp/sc/$id.test.sh
bash /tmp/sc/$id.test.sh /tmp/sc/$id.json >/dev/null 2>&1; python3 /verif/tools/stable.py /tmp/sc/$id.json | tail -5; fi
rm -rf /tmp/sc/$id /tmp/sc/$id.v
