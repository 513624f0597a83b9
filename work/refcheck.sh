#!/bin/bash
# usage: refcheck.sh ID... : run checks on all rewritten copies under /tmp/ref (developer tool)
cd "$(dirname "$0")/.."
for id in "$@"; do
 ls /tmp/ref | xargs -P 8 -I{} sh -c "mkdir -p /tmp/vo/{}; VERIF_OUT=/tmp/vo/{} VERIF_REPO=/tmp/ref/{} python3 check.py $id > /tmp/vo/{}/$id.txt 2>&1; echo $id {} rc=\$? \$(grep -c '^  ' /tmp/vo/{}/$id.txt)"
done
