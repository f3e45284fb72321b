#!/bin/bash
# runs every check of the quick tier one after another; prints the summary lines
cd "$(dirname "$0")/.."
for i in $(seq 1 33) 36; do p=$(printf C%02d $i); ./check.py $p ${1:-quick} > build/out-$p.txt 2>&1; echo "$p exit $? $(grep -v '^ ' build/out-$p.txt | tail -3 | tr '\n' ' ')"; done
