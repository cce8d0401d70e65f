#!/bin/bash
# debugging aid: where does case $2 of property $1 fork?   forkprof.sh PID CASE [budget]
exe=$(cd /verif && python3 vf.py build $1 | tail -1)
w=$(mktemp -d); cd $w
timeout $(( ${3:-40} + 60 )) $exe $2 $w/o.jsonl budget=${3:-40} jobs=8 forklog=$w/f >/dev/null 2>&1
sort $w/f | uniq -c | sort -rn | head -${4:-25} | while read n a; do echo "$n $(/usr/lib/llvm-18/bin/llvm-symbolizer -e $exe --functions=short --no-inlines $(printf '0x%x' $((a-1))) | head -2 | tr '\n' ' ')"; done
grep -o '"status": "[a-z]*"' $w/o.jsonl | sort | uniq -c
tail -1 $w/o.jsonl | cut -c1-700
rm -rf $w
