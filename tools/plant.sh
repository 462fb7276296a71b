#!/bin/bash
# plant.sh ID...: confirm planted bugs in a scratch copy of /repo (bind-mounted over /repo in a private mount namespace)
# and run the property's check against each. Usage: tools/plant.sh [-n] ID...   (-n: no check)
NOCHECK=0; [ "$1" = "-n" ] && { NOCHECK=1; shift; }
S=/tmp/plantrepo; B=/tmp/plantbuild; E=/tmp/plantev; mkdir -p $E
[ -d $S ] || cp -a /repo $S
[ -d $B ] || cp -a /verif/build $B
cat > /tmp/plant_inner.sh <<'I'
mount --bind /tmp/plantrepo /repo; mount --bind /tmp/plantbuild /verif/build; mount --bind /tmp/plantev /verif/evidence
cd /repo; NOCHECK=$1; shift
for id in "$@"; do
  d=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git checkout -q -- . ; bash /opt/vp/build.sh >/tmp/pl.log 2>&1 || { echo "$id: BASE BUILD FAIL"; tail -5 /tmp/pl.log; continue; }
  timeout 300 bash $d/demo.sh >/tmp/pl_base.log 2>&1; r0=$?
  git apply $d/patch.diff || { echo "$id: APPLY FAIL"; continue; }
  bash /opt/vp/build.sh >/tmp/pl.log 2>&1 || { echo "$id: BUILD FAIL"; grep -m5 error: /tmp/pl.log; git checkout -q -- .; continue; }
  bash /opt/vp/test.sh /tmp/pl_t.json >/dev/null 2>&1
  miss=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/pl_t.json'))
print(sorted(set(b['stable'])-set(t['passed'])))")
  timeout 300 bash $d/demo.sh >/tmp/pl_bug.log 2>&1; r1=$?
  c=-; if [ $NOCHECK = 0 ]; then cd /verif; timeout 900 python3 check.py $P >/tmp/pl_check_$id.log 2>&1; c=$?; v=$(grep -m1 VIOLATION /tmp/pl_check_$id.log); cd /repo; fi
  echo "$id [$P]: demo base=$r0 bug=$r1 missing_tests=$miss check=$c $v"
  [ $r0 != 0 ] && tail -3 /tmp/pl_base.log
  git checkout -q -- .
done
I
git -C $S fetch -q /repo HEAD && git -C $S checkout -q -- . && git -C $S reset -q --hard FETCH_HEAD
unshare -m bash /tmp/plant_inner.sh $NOCHECK "$@" || unshare -Urm bash /tmp/plant_inner.sh $NOCHECK "$@"
