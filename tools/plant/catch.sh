#!/bin/bash
# catch.sh ID...: the check of its property on each planted bug
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  echo "$id $(/verif/tools/mutant.sh /verif/seeded/$id/patch.diff $p | cut -c1-160)"
done
