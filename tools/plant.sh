#!/bin/bash
# bash tools/plant.sh [-t] ID...   try planted changes in throw-away copies (bind-mounted over /repo and /verif in a
# private mount namespace, so neither is touched): demo on both trees, stable tests with -t, and the property's check.
TESTS=0; [ "$1" = -t ] && { TESTS=1; shift; }
one() {
  ID=$1; S=/tmp/plant_$ID; D=/verif/seeded/$ID
  rm -rf "$S"; mkdir -p "$S"; cp -a /repo "$S/repo"; cp -a /verif "$S/verif"; cp -a "$D" "$S/demo"; rm -f "$S"/demo/*.diff "$S"/demo/meta.json
  mkdir -p "$S/reports"; PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  cp "$D/patch.diff" "$S/patch.diff"
  unshare -m bash -c "
    mount --bind $S/repo /repo; mount --bind $S/verif /verif; mkdir -p /opt/vp/reports; mount --bind $S/reports /opt/vp/reports
    cd /repo; bash $S/demo/demo.sh >$S/d0.log 2>&1; a=\$?
    git apply $S/patch.diff || { echo '$ID: patch does not apply'; exit; }
    bash /opt/vp/build.sh >$S/b.log 2>&1 || echo '$ID: BUILD FAILS'
    bash $S/demo/demo.sh >$S/d1.log 2>&1; b=\$?
    [ \$a = 0 ] || { echo '$ID: demo fails unpatched'; tail -5 $S/d0.log; }
    [ \$b != 0 ] || echo '$ID: demo passes with the patch'
    T=skipped
    if [ $TESTS = 1 ]; then
      bash /opt/vp/test.sh $S/t.json >$S/t.log 2>&1
      T=\$(python3 -c \"
import json; p=set(json.load(open('$S/t.json'))['passed']); s=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
print('ok' if s<=p else 'FAIL '+str(sorted(s-p)[:3]))\")
    fi
    cd /verif; VERIF_SEED=1 VERIF_TIER=quick bash run.sh $PROP >$S/c.log 2>&1; c=\$?
    echo \"$ID property=$PROP demo=\$a/\$b tests=\$T check=\$c \$(grep -a -m1 'sub-check' $S/c.log | cut -c1-80)\"
  "
  rm -rf "$S"
}
for i in "$@"; do one $i; done
