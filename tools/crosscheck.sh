#!/bin/bash
# run the whole repository test suite on the instrumented package; result in /tmp/itest.log
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TZ=UTC OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1; R=$(mktemp -d); cd /repo; PYTHONPATH=/verif timeout 800 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p pyvc.pytest_plugin --basetemp=$R/tmp -n 7 --dist loadfile -m "not internet" --timeout=300 --continue-on-collection-errors  -o junit_family=xunit2 --junitxml=$R/junit.xml "$@" > /tmp/itest.log 2>&1
/usr/bin/python3 /opt/vp/results.py /tmp/itest.json "junit:$R/junit.xml"; rm -rf "$R"
