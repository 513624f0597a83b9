#!/bin/bash
# developer tool: collect what rewritten copies lose, into contracts/unstable.json, then rewrite the contract
cd "$(dirname "$0")/.."
for k in ${ONLY:-$(ls /tmp/ref)}; do echo == $k; PYTHONHASHSEED=0 VERIF_REPO=/tmp/ref/$k python3 work/unstable.py |cut -c1-200 | tail -${1:-40}; done
