#!/bin/sh
# Determinism: for every property, the digest of all event hashes of N runs has
# to be the same for 1, 3 and 8 workers and when repeated.
#   tools/selftest.sh [N] [SEED]
V=$(cd "$(dirname "$0")/.." && pwd)
N=${1:-400}; export VERIF_SEED=${2:-1}
bad=0
for p in $(python3 -c "
import json
for l in open('$V/properties.jsonl'):
    i=json.loads(l)['id']
    if i[0]!='N': print(i)"); do
  d=
  for w in 1 3 8 8; do
    d="$d $(VERIF_WORKERS=$w sh "$V/check.sh" digest "$p" "$N" | awk '/^digest/{print $2}')"
  done
  set -- $d
  if [ $# = 4 ] && [ "$1" = "$2" ] && [ "$2" = "$3" ] && [ "$3" = "$4" ]; then echo "$p same $1"; else echo "$p DIFFERS $d"; bad=1; fi
done
exit $bad
