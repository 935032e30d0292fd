#!/bin/bash
# lines of /repo/pibronic which the quick checks (at a tenth of their size) execute; writes coverage data and a report to $1
out=${1:?directory}; mkdir -p "$out"
cd "$(dirname "$0")/.." || exit 2
for i in $(/opt/venv/bin/python -c "import json;print(*[json.loads(l)['id'] for l in open('properties.jsonl')])"); do
  PBT_COV="$out" COVERAGE_CORE=sysmon bash check.sh $i --tier quick --scale ${2:-0.1} | tail -1
done
cd "$out" && /opt/venv/bin/python -m coverage combine --keep ./C* >/dev/null && /opt/venv/bin/python -m coverage report -m | tee report.txt
