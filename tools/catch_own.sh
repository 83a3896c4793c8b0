#!/usr/bin/env bash
# shows for the given planted bugs (default: all) whether the check of their own property catches them
cd "$(dirname "$0")/.."
for s in "${@:-$(ls seeded)}"; do for t in $s; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$t/meta.json'))['property'])")
  python3 tools/seeds.py catch "$t" "$p"
done; done
