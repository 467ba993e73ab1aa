#!/bin/bash
# runseeds.sh [ID...]: apply each planted change to a scratch copy, export it and run the named property's check (all: CHECKS="C15 C16")
cd "$(dirname "$0")/.."
wt=/tmp/runwt; [ -d $wt ] || cp -a /repo $wt
(cd $wt && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git checkout -q -- .)
for d in ${@:-$(ls seeded)}; do
  d=seeded/$(basename $d); pr=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd $wt && git checkout -q -- . && git apply /verif/$d/patch.diff) || { echo "$d NOAPPLY"; continue; }
  WEBPARSE_REPO=$wt ./dump.sh /tmp/runseed.json 2>/dev/null || { echo "$d NOBUILD"; continue; }
  for c in ${CHECKS:-$pr}; do
    r=$(WEBPARSE_DUMP=/tmp/runseed.json timeout 900 python3 check.py $c 2>/dev/null); 
    if grep -q "^VIOLATION" <<<"$r"; then echo "$(basename $d) $c CAUGHT $(head -2 <<<"$r" | tr '\n' ' ' | cut -c1-160)"; else echo "$(basename $d) $c MISSED $(tail -1 <<<"$r" | cut -c1-200)"; fi
  done
done
(cd $wt && git checkout -q -- .)
