#!/bin/bash
# plant.sh ID: validates /verif/seeded/ID in a scratch copy of /repo: applies, builds, stable tests pass, demo 0 before and nonzero after.
id=$1; d=/verif/seeded/$id; w=/tmp/plant-$id
rm -rf "/tmp/plant-$id"; cp -a /repo "$w"; cd "$w" || exit 1
. /opt/vp/env.sh
git apply "$d/patch.diff" || { echo "NO APPLY"; rm -rf "/tmp/plant-$id"; exit 1; }
go build -buildvcs=false ./... || { echo "NO BUILD"; rm -rf "/tmp/plant-$id"; exit 1; }
bash $d/demo.sh >/tmp/plant-$id.patched.log 2>&1; b=$?
if [ "$2" != "notest" ]; then
go test -buildvcs=false ./pkg/... ./cmd/... 2>&1 | grep -E "^(FAIL|---|ok|\s+---)" | grep -E "FAIL" > /tmp/plant-$id.tests.log
fi
git apply -R "$d/patch.diff"; bash $d/demo.sh >/tmp/plant-$id.clean.log 2>&1; a=$?
cd /; rm -rf "/tmp/plant-$id"
echo "$id: clean=$a patched=$b test-failures: $(tr '\n' ' ' </tmp/plant-$id.tests.log)"
