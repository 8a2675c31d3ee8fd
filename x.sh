#!/bin/bash
# developer helper: x.sh VARIANT MODULE [args]
v=$1; m=$2; shift 2
d=$(python3 $(dirname $0)/tools/build.py $v) || { echo "$d"; exit 2; }
exec $d/explore --lib $d/librank.so --module $m "$@"
