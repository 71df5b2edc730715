#!/bin/bash
# run one check and show a few violations:  tools/run.sh P12 quick
cd "$(dirname "$0")/.."
python3-vt -B -W ignore checks/$1.py ${2:-quick} 2>&1 | cut -c1-400 | tail -4 | tee /tmp/run.out
grep -q VIOLATION /tmp/run.out && python3 tools/show.py $1 ${3:-8}
