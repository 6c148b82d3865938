#!/bin/sh
# trial.sh ID [check args]: run a seeded bug's own check (quick) against /repo with the patch applied
d=/verif/seeded/$1
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || exit 9
VERIF_TIER=quick SYMX_BUDGET=${SYMX_BUDGET:-300} /verif/bin/check $p 2>&1 | tail -2 | cut -c1-220
git -C /repo checkout -q -- .
