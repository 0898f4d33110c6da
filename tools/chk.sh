#!/bin/sh
# run one check and summarise
rm -rf /verif/replay/$1
cd /verif && VERIF_TIER=${2:-quick} PYTHONHASHSEED=0 /opt/venv/bin/python checks/$(echo $1 | tr A-Z a-z).py > /tmp/chk_$1.log 2>&1; echo rc=$?
tail -1 /tmp/chk_$1.log | cut -c1-300
grep KNOWN /tmp/chk_$1.log
python3 tools/vs.py $1 ${3:-20}
