#!/bin/bash
# development aid: all checks at one tier and seed; prints only what is not quiet
tier=${1:-quick}; seed=${2:-1}
cd "$(dirname "$0")/.."
for i in $(seq -w 1 27); do
  out=$(PYTHONHASHSEED=0 VERIF_SEED=$seed /opt/venv/bin/python -m vf.runner C$i --tier $tier 2>&1); rc=$?
  [ $rc = 0 ] && echo "C$i ok $(echo "$out" | grep ' seed=' | tail -1)" || { echo "C$i rc=$rc"; echo "$out" | tail -8; }
done
