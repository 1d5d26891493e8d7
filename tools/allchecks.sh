#!/bin/bash
# run every claimed check: tools/allchecks.sh [IDs]
cd "$(dirname "$0")/.."
ids=${*:-$(grep -o '"property": *"C[0-9]*"' MANIFEST.json | grep -o 'C[0-9]*' | sort -u)}
for c in $ids; do timeout 900 bash run.sh $c > /tmp/o.$c 2>&1; echo "rc $? $(grep -h traces /tmp/o.$c)"; done
