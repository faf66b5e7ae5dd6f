#!/bin/bash
# detect.sh OUT ID [CHECK...] : in a scratch copy of /repo and /verif, apply seeded/ID and run checks
# (default: all). Appends "ID CHECK rc secs class" lines to OUT.
out=$1; id=$2; shift 2
D=/tmp/detect
mkdir -p $D
if [ ! -d $D/repo ]; then cp -a /repo $D/repo; fi
git -C $D/repo fetch -q /repo HEAD && git -C $D/repo reset -q --hard FETCH_HEAD
mkdir -p $D/verif; (cd /verif && tar cf - --exclude=target --exclude=.git --exclude=seeded --exclude=replays . ) | tar xf - -C $D/verif
sed -i "s#\"/repo#\"$D/repo#g" $D/verif/*/Cargo.toml
git -C $D/repo apply /verif/seeded/$id/patch.diff || exit 2
checks=${*:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']))")}
first=1
for c in $checks; do
  s=$(date +%s)
  r=$(cd $D/verif && VERIF_SEED=1 VERIF_TIER=quick ./check.sh $c 2>&1); rc=$?
  e=$(( $(date +%s) - s ))
  echo "$id $c rc=$rc ${e}s $(grep -m1 VIOLATION <<<"$r") $(tail -n 2 <<<"$r" | head -c 200 | tr '\n' ' ')" >> $out
done
git -C $D/repo checkout -q -- .
