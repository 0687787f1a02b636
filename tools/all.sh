#!/bin/bash
# Runs every check (8 at a time): tools/all.sh [quick|thorough] [ids...]
tier=${1:-quick}; shift
ids="$@"; [ -z "$ids" ] && ids=$(ls specs | grep -o '^C[0-9]*')
cd "$(dirname "$0")/.."
mkdir -p /tmp/allout
echo $ids | tr ' ' '\n' | xargs -P ${JOBS:-4} -I{} sh -c "./check.py {} --tier $tier > /tmp/allout/{}.txt 2>&1; echo {} rc=\$? \$(tail -1 /tmp/allout/{}.txt | cut -c1-220)"
