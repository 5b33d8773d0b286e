#!/bin/bash
# Development helper: runs a property's quick check against a scratch copy of /repo with a planted bug applied.
# usage: trybug.sh BUGID [PROPERTY] [TIER]
V=$(cd "$(dirname "$0")/.." && pwd)
B=$1; P=${2:-$(/opt/venv/bin/python -c "import json;print(json.load(open('$V/seeded/$B/meta.json'))['property'])")}; T=${3:-quick}
D=$(mktemp -d /tmp/trybug.XXXXXX)
git -C ${TRYREPO:-/repo} archive HEAD | tar -x -C $D
(cd $D && git init -q && git apply $V/seeded/$B/patch.diff) || echo "patch does not apply"
out=$(cd $V && VMON_REPO=$D VERIF_SEED=1 VERIF_TIER=$T ./check.py $P --tier $T 2>&1); rc=$?
echo "$B $P rc=$rc $(echo "$out" | grep -m1 VIOLATION)"
echo "$out" > /tmp/trybug.$B.$P.log
rm -rf "$D"
