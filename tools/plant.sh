#!/bin/bash
# plant.sh ID [nocheck]: validates /verif/seeded/ID in a scratch copy of /repo and runs its property's check on it.
# Everything happens in /tmp/wt, bind-mounted over /repo in a private mount namespace.
ID=$1; S=/verif/seeded/$ID; W=/tmp/wt
if [ "$2" != inside ]; then
  [ -d $W ] || cp -a /repo $W
  git -C $W checkout -q -- . ; git -C $W pull -q --ff-only /repo HEAD; git -C /repo rev-parse HEAD >/tmp/repo_head
  exec unshare -Urm "$0" "$ID" inside "$2"
fi
mount --bind $W /repo || exit 9
mkdir -p /tmp/plantdemo; 
cd /repo; git checkout -q -- . ;
want=$(cat /tmp/repo_head)
if [ "$(git rev-parse HEAD)" != "$want" ]; then echo "wt behind $want"; exit 9; fi
bash /opt/vp/build.sh >/tmp/plant.log 2>&1 || { echo BUILD0 FAILED; exit 9; }
T=$(mktemp -d /tmp/pd.XXXX); cp -r $S/. $T; rm -f $T/*.diff $T/*.patch $T/meta.json
timeout 300 bash $T/demo.sh >/tmp/demo0.log 2>&1; d0=$?
git apply $S/patch.diff || { echo APPLY FAILED; exit 9; }
bash /opt/vp/test.sh /tmp/plant_t.json >/tmp/plant.log 2>&1
t=$(python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/plant_t.json'))
print(len(b-set(t['passed'])))
P
)
timeout 300 bash $T/demo.sh >/tmp/demo1.log 2>&1; d1=$?
rm -rf "$T"
c=-
if [ "$3" != nocheck ]; then
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cd /verif; VERIF_SEED=1 timeout 900 ./run_check $P quick >/tmp/plant_check.log 2>&1; c=$?
  grep -c "^VIOLATION property=$P" /tmp/plant_check.log
  grep -A3 -m1 "^VIOLATION" /tmp/plant_check.log | cut -c1-400
  cd /repo
fi
git checkout -q -- .
echo "$ID demo0=$d0 (want 0) tests_broken=$t demo1=$d1 (want !=0) check=$c (want 1)"
