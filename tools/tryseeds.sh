#!/bin/bash
# Applies each planted change to /repo, runs the check of its property, and undoes it.
# Usage: tryseeds.sh [id...]
cd "$(dirname "$0")/.."
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
for id in ${@:-$(ls seeded)}; do
    prop=$(python3 -c "import json; print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
    out=$(./run.sh "${CHECK:-$prop}" quick 2>/dev/null)
    code=$?
    git -C /repo checkout -q -- .
    if [ $code = 1 ] && grep -q "^VIOLATION property=${CHECK:-$prop} " <<<"$out"; then r=caught; else r="MISSED ($code)"; fi
    echo "$r $id $(grep '^property ' <<<"$out" | cut -c1-160 | head -1)"
done
