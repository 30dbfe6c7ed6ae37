#!/bin/bash
# Determinism self-test: the event log of every run must be the same whatever
# the number of workers, the order of runs and the hash seed.
# usage: selftest.sh [runs] [seed...]
cd "$(dirname "$0")/.." || exit 2
. tools/environ.sh
runs=${1:-40}; shift; seeds=${*:-1 2}
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
bad=0
for c in $(ls dst/props | sed -n 's/^c\([0-9]*\)\.py$/C\1/p'); do
  for s in $seeds; do
    PYTHONHASHSEED=0 $PY -m dst.main digests "$c" --seed "$s" --runs "$runs" --workers 8 > "$d/a"
    PYTHONHASHSEED=77 $PY -m dst.main digests "$c" --seed "$s" --runs "$runs" --workers 3 > "$d/b"
    if cmp -s "$d/a" "$d/b"; then echo "$c seed $s: $(wc -l < "$d/a") runs identical"; else echo "$c seed $s: DIFFERENT"; diff "$d/a" "$d/b" | head -4; bad=1; fi
  done
done
exit $bad
