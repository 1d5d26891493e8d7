#!/bin/bash
# tools/fix.sh "C01 C16" "message" file... : commit a repair in /repo and record it
props=$1; msg=$2; shift 2
git -C /repo add "$@" && git -C /repo commit -qm "fix: $msg" || exit 1
h=$(git -C /repo rev-parse --short HEAD)
for p in $props; do echo "fixed: property=$p $h $msg" >> /verif/KNOWN_FINDINGS; done
