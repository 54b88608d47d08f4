#!/bin/bash
# Determinism: dump the trace hash of every seed of a range at several worker counts, each worker a process of its own, and compare.
# usage: tools/determinism.sh [N] [Cxx ...]
cd "$(dirname "$0")/.." || exit 2
N=${1:-2000}; shift; P=${*:-$(python3 -c 'from props import PROPS; print(*sorted(PROPS))')}
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT; bad=0
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0
for p in $P; do
  for b in $(python3 check.py $p --build | tail -1 | tr -d "[],'"); do
    for W in 1 8 13; do
      for w in $(seq 0 $((W-1))); do "$b" --base 424242 --start $w --stride $W --count $N --time 3000 --out $T/o$w --dumphash $T/h$W.$w --dup 0 2>/dev/null & done; wait
      cat $T/h$W.* | sort > $T/all$W; rm -f $T/h$W.* $T/o*
    done
    if cmp -s $T/all1 $T/all8 && cmp -s $T/all1 $T/all13; then echo "$(basename $b): $(wc -l < $T/all1) seeds identical in 3 x $N executions (1, 8, 13 worker processes)"; else echo "$(basename $b): DIFFERS"; bad=1; fi
  done
done
exit $bad
