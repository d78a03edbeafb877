#!/bin/bash
# seeded.sh [ID...]: run the check of each planted bug's property against it.
cd /verif
[ $# -gt 0 ] || set -- $(ls seeded)
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  s=$(date +%s); echo "$i: $(tools/try.sh seeded/$i/patch.diff $p) $(( $(date +%s)-s ))s"
done
