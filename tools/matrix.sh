#!/bin/bash
# matrix.sh [-p PROPS] BUG... : applies each planted bug to /repo in turn and runs the checks of all
# (or the given, comma separated) properties, printing which of them report a violation.
props=$(cut -d' ' -f1 /verif/claimed.txt | tr '\n' ' ')
own=
if [ "$1" = -p ]; then props=${2//,/ }; shift 2; fi
if [ "$1" = -o ]; then own=1; shift; fi
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick VERIF_EVIDENCE=/tmp/matrix-evidence
mkdir -p $VERIF_EVIDENCE
[ -z "$(git -C /repo status --short)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for bug in "$@"; do
  dir=/verif/seeded/$bug
  want=$(python3 -c "import json,sys; print(json.load(open('$dir/meta.json'))['property'])")
  git -C /repo apply "$dir/patch.diff" || { echo "$bug: does not apply"; continue; }
  hit= ; odd=
  for p in ${own:+$want} ${own:-$props}; do
    [ "$p" = 1 ] && continue
    out=$(timeout 900 bash /verif/check.sh "$p" 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<< "$out"; then hit="$hit $p"
    elif [ $rc != 0 ]; then odd="$odd $p:$rc"; fi
  done
  git -C /repo checkout -q -- .
  case " $hit " in *" $want "*) v=CAUGHT;; *) v=MISSED;; esac
  echo "$v $bug ($want):$hit${odd:+  OTHER EXITS:$odd}"
done
