#!/bin/bash
# tools/ex.sh REPO example.py ...: runs examples of a scratch copy under a virtual display
R=$1; shift
W=$(mktemp -d /tmp/exXXXX)
Xvfb -displayfd 3 -screen 0 1024x768x24 -nolisten tcp 3>$W/display >/dev/null 2>&1 &
X=$!
for i in $(seq 100); do [ -s $W/display ] && break; sleep 0.1; done
export DISPLAY=:$(cat $W/display) PYTHONPATH=$R PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
for e in "$@"; do (cd $R/examples && timeout 300 /opt/venv/bin/python -W ignore $e > $W/log 2>&1; echo "$e rc $?"; tail -3 $W/log); done
kill $X; rm -rf $W
