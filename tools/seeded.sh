#!/bin/bash
# Applies each planted bug (or those named) to a scratch copy of /repo and runs
# the check of its property there with the quick settings. Development tool:
# the registered checks never read seeded/.
#   tools/seeded.sh [-a] [ID...]     -a: run all properties, not only its own
V=$(cd "$(dirname "$0")/.." && pwd)
all=; [ "$1" = -a ] && { all=1; shift; }
ids=${*:-$(ls "$V/seeded")}
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir "$T/verif" && cp -R "$V/sim" "$V/check.sh" "$V/KNOWN_FINDINGS.txt" "$T/verif/"
for id in $ids; do
  rm -rf "$T/src"; mkdir "$T/src"; git -C /repo archive HEAD | tar x -C "$T/src"
  (cd "$T/src" && git init -q . 2>/dev/null && git apply "$V/seeded/$id/patch.diff") || { echo "$id does not apply"; continue; }
  prop=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$V/seeded/$id/meta.json")
  props=$prop; [ -n "$all" ] && props=$(python3 -c "
import json
for l in open('$V/properties.jsonl'):
    i=json.loads(l)['id']
    if i[0]!='N': print(i)")
  hit=; err=
  for p in $props; do
    out=$(cd "$T/verif" && VERIF_REPO="$T/src" sh check.sh "$p" 2>&1); rc=$?
    [ $rc = 1 ] && hit="$hit $p"; [ $rc -gt 1 ] && { err="$err $p($rc)"; echo "$out" | tail -5; }
  done
  case " $hit " in *" $prop "*) r=caught;; *) r=MISSED;; esac
  echo "$r $id by:$hit ${err:+errors:$err}"
done
