#!/bin/bash
# trybug.sh ID [PROP] [tier]: runs the check against a scratch copy with the planted bug.
id=$1; d=/verif/seeded/$id; w=/tmp/try-$id
p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
rm -rf "/tmp/try-$id"; cp -a /repo "$w"; (cd "$w" && git apply "$d/patch.diff") || exit 1
VERIF_REPO=$w /verif/check $p ${3:-quick} 2>&1 | cut -c1-400 | tail -${4:-6}; echo "$id $p exit ${PIPESTATUS[0]}"
rm -rf "/tmp/try-$id"
