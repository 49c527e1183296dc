#!/bin/bash
# runs every check in turn: tools/all.sh [tier] [IDs...]
cd "$(dirname "$0")/.."
tier=${1:-quick}; shift
ids=${*:-$(ls checks | grep -o '^c[0-9][0-9]' | tr c C)}
for c in $ids; do timeout 1000 /opt/venv/bin/python run.py $c --tier $tier 2>&1 | grep -v "^KNOWN" | tail -${LINES_:-3}; done
