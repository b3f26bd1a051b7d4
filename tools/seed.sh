#!/bin/bash
# tools/seed.sh ID...  - judges planted changes in a scratch copy of /repo: clean demo, patched demo, core tests, and which checks report it
S=${S:-/tmp/sr}; W=$S.ws; mkdir -p $S $S.logs
for id in "$@"; do
  d=/verif/seeded/$id
  [ -d $S/.git ] || cp -a /repo/. $S/
  git -C $S fetch -q /repo HEAD && git -C $S reset -q --hard FETCH_HEAD
  if [ -z "$SKIPDEMO" ]; then (cd $S && bash $d/demo.sh > $S.logs/$id.clean 2>&1); echo "$id clean demo rc=$?"; fi
  git -C $S apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -z "$SKIPDEMO" ]; then (cd $S && bash $d/demo.sh > $S.logs/$id.bug 2>&1); echo "$id patched demo rc=$? $(tail -1 $S.logs/$id.bug | cut -c1-150)"; fi
  if [ -z "$SKIPTEST" ]; then
    sed "s#/repo#$S#g; s#/opt/vp/ws#$W#g" /opt/vp/mkws.py > $S.mkws.py; python3 $S.mkws.py; cp /opt/vp/ws/Cargo.lock $W/ 2>/dev/null
    . /opt/vp/env.sh
    while IFS=: read -r name flags; do
      (cd $W && CARGO_TARGET_DIR=$S/target timeout 400 cargo nextest run --no-fail-fast --offline $flags < /dev/null > $S.logs/$id.$name 2>&1)
      grep -a "^ *FAIL\|TIMEOUT\|^error" $S.logs/$id.$name | sort -u | head -5 | sed "s/^/$id $name /"
    done <<< "$CONFIGS"
    echo "$id tests done: $(grep -ah 'Summary' $S.logs/$id.* | tr -s ' ' | cut -c1-60 | tr '\n' ';')"
  fi
  (cd /verif && VERIF_REPO=$S VERIF_WORK=$S.work ./check ${CHECKS:-all} 2>&1 | grep -a "VIOLATION\|BROKEN\|rror" | cut -c1-160 | sed "s/^/$id /")
  git -C $S checkout -q -- .
done
