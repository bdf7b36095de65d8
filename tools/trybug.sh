#!/bin/bash
# trybug.sh SEED-DIR [PROPS..]: applies the planted bug to /repo, builds, runs its demo and the checks, reverts
d=/verif/seeded/$1; shift
p=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
git -C /repo apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh > /tmp/trybug.log 2>&1 || { tail /tmp/trybug.log; exit 2; }
(cd /repo && timeout 300 bash $d/demo.sh > /tmp/trybug.demo 2>&1); echo "DEMO rc $? (nonzero expected)"
cmd() { python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    if c['property_id' if 'property_id' in c else 'property']=='$1': print(c['quick_cmd' if 'quick_cmd' in c else 'quick'])"; }
for x in $p; do s=$(date +%s); (cd /verif; timeout 900 bash run.sh $x quick > /tmp/trybug.$x 2>&1); rc=$?; echo "$x rc $rc $(( $(date +%s) - s ))s $(grep -m2 VIOLATION /tmp/trybug.$x)"; done
