#!/bin/bash
# run.sh PID [tier]
cd /verif; PYVC_VERBOSE=1 timeout 900 /opt/venv/bin/python check.py $1 ${2:-quick} > /tmp/$1.out 2>&1; echo rc $?; tail -${3:-15} /tmp/$1.out
