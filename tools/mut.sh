#!/bin/bash
# mut.sh PROP 'sed-expr' file : run the check on a mutated copy
P=$1; shift
rm -rf /tmp/rm; cp -a /repo /tmp/rm; cd /tmp/rm
while [ $# -gt 0 ]; do sed -i "$1" $2; shift 2; done
git diff --stat | tail -1; git diff | grep '^[-+]' | grep -v '^+++\|^---'
VERIF_REPO=/tmp/rm python3 /verif/run.py $P ${LIM:+--limit $LIM} 2>&1 | tail -${TAIL:-6} | cut -c1-${W:-500}
rm -rf /tmp/rm
